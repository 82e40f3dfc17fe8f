"""Objects do not influence each other: every interleaving of the operations of two users, each with its own objects, shows
each of them exactly what it sees alone - in one thread, in two threads preempted at any line of the library, from copies, and under other hash seeds."""
import copy
import gc
import hashlib
import itertools
import json
import os
import pickle
import subprocess
import sys
import threading

from mc import env

ID = "C44"
FILES = True
BOUNDS = {
    "quick": "30 users of 3 to 5 steps each, in 2 variants; alone in a fresh process; every interleaving of the steps of every ordered pair of users (either variant, 4 steps each); two threads: 30 pairs, the first user "
             "preempted at every line of the library it executes (one preemption), the other one run to its end; deep copies and pickles of 14 kinds of objects, each side then changed; 6 hash seeds",
    "thorough": "every interleaving of every three users (2 steps each); every ordered pair of users in two threads with one preemption at every line, and 8 pairs with two preemptions; 40 hash seeds",
}
ASSUMPTIONS = ["users share no object", "threads switch at line boundaries of the library's code", "the reference of a user is its run alone in a fresh process"]

IOS = [["hostname r1", "interface GigabitEthernet0/1", " ip address 10.0.0.1 255.255.255.0", " standby 1 ip 10.0.0.254", " standby 1 priority 110", "interface GigabitEthernet0/2", " switchport mode trunk", " switchport trunk allowed vlan 1-5",
        "ip route 10.9.0.0 255.255.0.0 10.0.0.9 200 name A", "banner motd ^C", " hello", "^C", "line vty 0 4", " exec-timeout 5 0"],
       ["hostname r2", "interface GigabitEthernet0/1", " ip address 172.16.0.1 255.255.0.0", " standby 1 ip 172.16.0.254", " standby 2 ip 172.16.0.253", "interface GigabitEthernet0/2", " switchport mode trunk",
        " switchport trunk allowed vlan 7-9", "ip route 10.9.0.0 255.255.0.0 Null0 name B", "line vty 0 4", " exec-timeout 9 30"]]
NX = [["interface Ethernet1/1", "  switchport", "  switchport trunk allowed vlan 10-12", "interface Vlan10", "  ip address 10.1.1.1/24", "  hsrp 5", "    ip 10.1.1.254", "vrf context A", "  ip route 0.0.0.0/0 10.1.1.2"],
      ["interface Ethernet1/1", "  no switchport", "  ip address 10.2.2.1/30", "interface Vlan10", "  ip address 10.3.1.1/24", "  hsrp 7", "    ip 10.3.1.254", "    priority 90"]]
ASA = [["names", "name 10.1.1.1 alpha", "name 10.1.2.0 beta", "object-group network G0", " network-object host alpha", " network-object beta 255.255.255.0", "object-group network G1", " group-object G0", " network-object host 192.0.2.1",
        "access-list A extended permit tcp any host 10.1.1.1 eq www"],
       ["names", "name 10.9.9.9 alpha", "name 10.9.8.0 beta", "object-group network G0", " network-object host beta", " network-object alpha 255.255.255.255", "object-group network G1", " network-object host alpha",
        "access-list A extended deny udp any any eq domain"]]
XR = [["interface GigabitEthernet0/0/0/0", " ipv4 address 10.5.0.1 255.255.255.252", " vrf A", " mtu 9000"], ["interface GigabitEthernet0/0/0/0", " ipv4 address 10.6.0.1 255.255.255.0", " shutdown"]]
JUN = [["interfaces {", "    ge-0/0/1 {", "        unit 0 {", "            family inet {", "                address 10.0.0.1/24;", "            }", "        }", "    }", "}"],
       ["system {", "    host-name a;", "    login {", "        user x {", "            uid 5;", "        }", "    }", "}", "interfaces {", "    lo0 { unit 0; }", "}"]]


def tree(p):
    return [(o.text, o.linenum, o.parent.linenum, [c.linenum for c in o.children], o.is_comment, o.classname, o.indent) for o in p.ConfigObjs]


def P(*a, **k):
    from ciscoconfparse import CiscoConfParse
    return CiscoConfParse(*a, **k)


def txt(objs):
    return [o.text for o in objs]


# ---- the users: generators whose steps lie between the yields -----------------------------------------------------------
def u_ios(v):
    p = P(IOS[v], factory=True)
    yield tree(p)
    i = p.find_objects("^interface")[0]
    yield [i.name, i.ipv4_addr, i.ipv4_netmask, i.hsrp_interfaces and [(h.group, h.ip, h.priority) for h in i.hsrp_interfaces] if hasattr(i, "hsrp_interfaces") else None]
    j = p.find_objects("^interface")[1]
    yield [j.trunk_vlans_allowed.as_list(result_type=int), [(o.network, o.nexthop_str, o.admin_distance, o.route_name) for o in p.find_objects("^ip route")]]
    i.append_to_family(f" description {v}")
    p.commit()
    yield tree(p)


def u_plain(v):
    p = P(IOS[v])
    yield tree(p)
    yield [txt(p.find_objects_w_child("^interface", "ip address")), p.find_lines("1"), p.find_blocks("10.0.0.1"), [txt(x) if None not in x else repr(x) for x in p.find_object_branches(("^interface", "ip"))]]
    p.replace_lines("255.255", f"25{v}.255")
    p.insert_after("^hostname", f"added {v}")
    p.commit()
    yield tree(p)
    p.delete_lines("^interface")
    p.commit()
    yield [p.ioscfg, tree(p)]


def u_atomic(v):
    p = P(["a", " b", "c", " d"], factory=bool(v))
    yield tree(p)
    p.ConfigObjs.insert_after("a", f" x{v}", atomic=True)
    yield tree(p)
    p.ConfigObjs[0].delete()
    p.atomic()
    yield tree(p)
    p.append_line(f"e{v}")
    p.commit()
    yield tree(p)


def u_comments(v):
    c = "!#"[v]
    p = P(["a", f"{c} note", " b", "#x", "!y", "", "z"], comment=c, ignore_blank_lines=bool(v), factory=bool(v))
    yield tree(p)
    yield [o.is_comment for o in p.ConfigObjs]
    p.prepend_line(f"{c}first")
    p.commit()
    yield tree(p)
    yield p.ioscfg


def u_nxos(v):
    p = P(NX[v], syntax="nxos", factory=True)
    yield tree(p)
    a, b = p.find_objects("^interface")
    yield [a.is_switchport, repr(a.trunk_vlans_allowed), a.ipv4_addr, b.ipv4_addr]
    yield [b.hsrp_group, b.hsrp_ip_addr, b.hsrp_priority]
    b.delete()
    p.commit()
    yield tree(p)


def u_asa(v):
    p = P(ASA[v], syntax="asa", factory=True)
    yield [tree(p), dict(p.ConfigObjs.names)]
    yield [list(map(str, g.network_strings)) for g in p.find_objects("^object-group")]
    yield [[str(n) for n in g.networks] for g in p.find_objects("^object-group")] + [sorted(p.ConfigObjs.object_group_network)]
    yield {k: [o.result_dict for o in x] for k, x in p.ConfigObjs.access_list.items()}


def u_xr(v):
    p = P(XR[v], syntax="iosxr", factory=True)
    i = p.ConfigObjs[0]
    yield tree(p)
    yield [i.name, i.ipv4_addr, str(i.ipv4_addr_object), i.manual_mtu, i.vrf, i.is_shutdown]
    i.append_to_family(f" description d{v}")
    p.commit()
    yield [tree(p), p.ConfigObjs[0].description]


def u_junos(v):
    p = P(JUN[v], syntax="junos", factory=False)
    yield tree(p)
    yield [[txt(x) if None not in x else repr(x) for x in p.find_object_branches(("interfaces", ".", "."))], p.find_lines("a")]
    yield p.ioscfg


def u_hdiff(v):
    from ciscoconfparse.ciscoconfparse import HDiff
    a, b = [["a", " b", "c"], ["a", " b", " x", "d"]], [["a", "c", " y"], ["x", "a", " b"]]
    d = HDiff(a[v], b[v])
    yield d.unified_diffs()[2:]
    yield [[x["diff_word"], x["text"], x["parents"]] for x in d.all_output_dicts]
    yield P(a[v]).sync_diff(b[v], "", uncfgspec=".*")


def u_diff(v):
    from ciscoconfparse.ciscoconfparse import Diff
    a, b = [["interface a", " shutdown", "x"], ["vlan 5", " name q"]], [["interface a", " no shutdown"], ["vlan 5", " name r", "vlan 6"]]
    d = Diff(old_config=a[v], new_config=b[v])
    yield d.diff()
    yield d.rollback()
    yield d.diff()


def u_excl(v):
    p = P(["logging 1.1.1.%d" % n for n in range(3)] + ["ntp 1", "interface a", " log x"])
    yield p.req_cfgspec_all_diff(["ntp %d" % v, "foo"])
    yield p.req_cfgspec_excl_diff("^logging", "logging.+", ["logging 1.1.1.%d" % v, "logging 9"])
    p.ConfigObjs[0].add_uncfgtext("foo %d" % v)
    yield [o.uncfgtext for o in p.ConfigObjs]
    yield p.ioscfg


def u_typed(v):
    p = P(["a 1", " b 5", " c x", "  d %d" % v, "a 2"])
    yield [o.re_match_typed(r"^a (\d)", result_type=int, default=-1) for o in p.ConfigObjs]
    yield [p.re_match_iter_typed(r"d (\d)", result_type=float, default=7), p.ConfigObjs[0].re_match_iter_typed(r"^\s+(?P<k>\S) (?P<n>\d)", groupdict={"k": str, "n": int}, default="")]
    yield [p.ConfigObjs[0].re_match_typed(r"(\d)", result_type=float), p.ConfigObjs[0].re_search("x", default="no"), p.ConfigObjs[1].re_match(r"b (\d)")]
    yield [p.find_parents_w_child("a", "b"), p.find_all_children("^a 1"), p.find_lineage("d")]


def u_file(v):
    from mc import core
    import tempfile
    d = tempfile.mkdtemp(dir=core.scratch())
    f = os.path.join(d, "a.cfg")
    p = P(["a %d" % v, " b", "!c"])
    p.save_as(f)
    yield open(f, "rb").read().decode()
    q = P(f, factory=bool(v))
    yield tree(q)
    q.append_line("zz %d" % v)
    q.commit()
    q.save_as(f)
    yield open(f, "rb").read().decode()
    os.unlink(f)
    os.rmdir(d)
    yield tree(q)


def u_v4(v):
    from ciscoconfparse.ccp_util import IPv4Obj
    a = IPv4Obj(["10.1.2.3/24", "172.16.5.5 255.255.0.0"][v])
    yield [str(a), a.as_decimal, a.netmask.exploded, a.numhosts, a.network_offset]
    a.network_offset = 9 + v
    yield [str(a), str(a.network), a + 3, a - 1]
    a.prefixlen = 28 + v
    yield [str(a), a.as_cidr_addr, a.as_zeropadded, a in IPv4Obj("10.0.0.0/8"), hash(a) == hash(IPv4Obj(a.as_cidr_addr))]
    yield sorted([a, IPv4Obj("1.1.1.1"), IPv4Obj("9.9.9.9/%d" % (9 + v))])


def u_v6(v):
    from ciscoconfparse.ccp_util import IPv6Obj
    a = IPv6Obj(["2001:db8::1/64", "fe80::5:6/10"][v])
    yield [str(a), a.as_decimal, a.numhosts, a.network_offset, a.is_link_local]
    a.network_offset = 7 + v
    yield [str(a), str(a.network), a + 3]
    a.prefixlen = 120 + v
    yield [str(a), a.as_cidr_addr, a.exploded, a in IPv6Obj("::/0")]


def u_range(v):
    from ciscoconfparse.ccp_util import CiscoRange
    a = CiscoRange(["1-3,7", "5,9-11"][v], result_type=int)
    yield [a.as_list(result_type=int), len(a), a.as_compressed_str()]
    a.append(20 + v)
    yield [a.as_list(result_type=int), a.as_compressed_str(), 20 in a]
    b = a + CiscoRange("30-3%d" % (2 + v), result_type=int) - CiscoRange("7,9", result_type=int)
    yield [b.as_list(result_type=int), a.as_list(result_type=int)]
    a.remove(20 + v)
    yield [a.as_compressed_str(), b.as_compressed_str()]


def u_irange(v):
    from ciscoconfparse.ccp_util import CiscoRange
    a = CiscoRange(["Eth1/1-3,7", "Serial2/0/1:0-2"][v], result_type=None)
    yield [str(x) for x in a.as_list()]
    yield [a.as_compressed_str(), repr(a)]
    yield [str(x) for x in (a - CiscoRange(["Eth1/2", "Serial2/0/1:1"][v], result_type=None)).as_list()]
    yield [str(x) for x in a]


def u_intf(v):
    from ciscoconfparse.ccp_util import CiscoIOSInterface
    a = CiscoIOSInterface(["GigabitEthernet1/2.3", "Serial4/5/6:7 multipoint"][v])
    yield a.as_dict()
    a.subinterface = 40 + v
    a.channel = None
    yield [str(a), a.as_dict(), a.sort_list]
    a.prefix = "Eth"
    yield [str(a), a.number, hash(a) == hash(CiscoIOSInterface(str(a))), a.interface_class]


def u_ports(v):
    from ciscoconfparse.ccp_util import L4Object
    a = L4Object(["tcp", "udp"][v], ["range ssh smtp", "lt 5"][v], "asa")
    yield [a.port_list, repr(a)]
    b = L4Object(["tcp", "udp"][v], ["eq www", "eq domain"][v], "asa")
    yield [a == b, b.port_list, repr(b)]
    yield [a.port_list, a.protocol]


def u_password(v):
    from ciscoconfparse.ciscoconfparse import CiscoPassword
    a = CiscoPassword(["04480E051A33490E", "070C285F4D06"][v])
    yield a.decrypt()
    yield a.decrypt(["070C285F4D06", "04480E051A33490E"][v])
    yield a.decrypt()


def u_list(v):
    p = P(["a", "b", "c %d" % v])
    c = p.ConfigObjs.copy()
    yield [txt(c), txt(p.ConfigObjs)]
    c.pop()
    c.reverse()
    yield [txt(c), txt(p.ConfigObjs), len(c)]
    p.ConfigObjs.insert_after("c", "z%d" % v)
    yield [txt(c), txt(p.ConfigObjs)]
    p.ConfigObjs.reverse()
    p.commit()
    yield [txt(c), tree(p)]


def u_bad(v):
    out = []
    for f in (lambda: P(5 + v), lambda: P(["a"], syntax="nope%d" % v), lambda: P(["a"]).find_interface_objects("x"), lambda: P(["a"], comment="")):
        try:
            out.append(repr(f()))
        except Exception as e:
            out.append(type(e).__name__)
        if len(out) % 2 == 0:
            yield list(out)
    p = P(["a", " b"])
    try:
        p.ConfigObjs[9]
    except IndexError:
        out.append("index")
    yield out + tree(p)


def u_banner(v):
    p = P([["banner motd ^", " one", "x", "^", "interface a", " b"], ["macro name q", " two", "@", "banner exec #", "y", " #", "c", " d"]][v])
    yield tree(p)
    yield [p.find_lines("^banner|^macro"), p.find_children_w_parents("banner|macro", ".")]
    p.ConfigObjs[1].insert_after(" in %d" % v)
    p.commit()
    yield tree(p)


def u_children(v):
    p = P(["a", " b", "  c", " d", "e"])
    o = p.ConfigObjs[0]
    yield [txt(o.all_children), txt(p.ConfigObjs[2].all_parents), txt(p.ConfigObjs[2].geneology_text and p.ConfigObjs[2].geneology), p.ConfigObjs[2].geneology_text]
    o.children[v].re_sub("b|d", "Q")
    yield [txt(o.children), p.ioscfg]
    o.delete_children_matching("Q") if v else o.replace("a", "A")
    p.commit()
    yield tree(p)


def u_junosdiff(v):
    from ciscoconfparse.ciscoconfparse import HDiff
    yield HDiff(JUN[v], JUN[1 - v], syntax="junos").unified_diffs()[2:]
    p = P(JUN[v], syntax="junos", factory=True)
    yield [(o.text, o.intf_name if hasattr(o, "intf_name") else None, o.is_intf) for o in p.ConfigObjs]
    yield tree(p)


def u_helpers(v):
    from ciscoconfparse.ccp_util import check_valid_ipaddress, collapse_addresses, fix_repeated_words, ip_factory, IPv4Obj
    yield [check_valid_ipaddress(["10.0.0.%d" % v, "::1"][v]), fix_repeated_words("no no x %d" % v, word="no")]
    yield [str(ip_factory(["1.1.1.1/8", "fe80::1/9"][v], stdlib=False)), [str(x) for x in collapse_addresses([IPv4Obj("10.0.%d.0/25" % v), IPv4Obj("10.0.%d.128/25" % v)])]]
    yield fix_repeated_words("  a a b", word="a")


SAME = [["hostname a", "interface Ethernet1/1", " ip address 10.1.1.1 255.255.255.0", " !x", "#y", "line vty 0 4", "name 10.1.1.1 z", "names", "access-list A extended permit ip any any",
         "object-group network G", " network-object 10.0.0.0 255.0.0.0", "vpc domain 5", "aaa group server tacacs+ T", " server 10.1.1.1"],
        ["hostname a", "router x", " interface Ethernet1/1", "#y", "name 10.1.1.1 z", "names", "object-group network G", " network-object host z", "aaa group server tacacs+ T", " server 10.1.1.2",
         "access-list A extended permit ip any any"]]


def u_same(syntax):
    def user(v):
        p = P(SAME[v], syntax=syntax, factory=True)
        yield tree(p)
        for g in p.find_objects("^object-group"):
            if syntax == "asa":
                nets = g.networks
                yield [str(x) for x in nets]
                nets[0].prefixlen = 20 + v
                nets[0].network_offset = 1
        p.find_objects("interface")[0].re_sub("Ethernet", "Loopback")
        p.commit()
        yield tree(p)
        p.ConfigObjs[0].delete()
        p.ConfigObjs.insert(1, "interface Ethernet1/1")
        p.commit()
        yield tree(p)
    user.__name__ = "u_same_" + syntax
    return user


USERS = [*[u_same(s) for s in ("ios", "nxos", "asa", "iosxr")], u_ios, u_plain, u_atomic, u_comments, u_nxos, u_asa, u_xr, u_junos, u_hdiff, u_diff, u_excl, u_typed, u_file, u_v4, u_v6, u_range, u_irange, u_intf, u_ports, u_password, u_list, u_bad, u_banner, u_children,
         u_junosdiff, u_helpers]
NAMES = [u.__name__[2:] for u in USERS]
SMALL = ["atomic", "comments", "xr", "typed", "v4", "v6", "range", "intf", "ports", "password", "list", "bad", "children", "helpers", "asa"]  # users of the thread pairs
PARTS = 4  # the schedules of a pair are divided


def clean(x):
    return json.loads(json.dumps(x, default=repr))


def steps(name, v):
    """The user's observations, one per step; an exception is the last one."""
    g = USERS[NAMES.index(name)](v)
    while True:
        try:
            x = clean(next(g))
        except StopIteration:
            return
        except Exception as e:
            yield ["raised", type(e).__name__]
            return
        yield x


def in_child(f):
    """f() in a forked process, its JSON result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            out = json.dumps(f()).encode()
            with os.fdopen(w, "wb") as fh:
                fh.write(out)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    _, st = os.waitpid(pid, 0)
    if st or not data:
        raise RuntimeError(f"child ended with {st}")
    return json.loads(data)


_ALONE = {}


def setup(tier):
    for n in NAMES:
        for v in (0, 1):
            _ALONE[n, v] = in_child(lambda: list(steps(n, v)))


def process():
    return [os.getcwd(), hashlib.sha1(repr(sorted(os.environ.items())).encode()).hexdigest(), sys.getrecursionlimit(), len(os.listdir("/proc/self/fd")), threading.active_count(), len(sys.path), os.umask(os.umask(0o22)) and 0]


def orders(na, nb):
    for pos in itertools.combinations(range(na + nb), na):
        yield [0 if i in pos else 1 for i in range(na + nb)]


COPIES = ["config", "line", "list", "nxos", "asa", "junos", "v4", "v6", "range", "irange", "intf", "ports", "password", "diff"]


def shards(tier):
    out = [{"k": "alone", "u": n} for n in NAMES] + [{"k": "seq", "a": a} for a in NAMES] + [{"k": "copy", "o": o} for o in COPIES] + [{"k": "seed", "n": n} for n in range(6 if tier == "quick" else 40)]
    if tier == "quick":
        out += [{"k": "thread", "a": a, "b": b, "n": 1, "part": p} for i, a in enumerate(SMALL) for b in (a, SMALL[(i + 3) % len(SMALL)]) for p in range(PARTS)]
    else:
        out += [{"k": "thread", "a": a, "b": b, "n": 1, "part": p} for a in NAMES for b in NAMES if "file" not in (a, b) for p in range(PARTS)]
        out += [{"k": "thread", "a": a, "b": a, "n": 2, "part": p} for p in range(PARTS) for a in ("intf", "ports", "password", "v6", "typed", "bad", "helpers", "irange")]
        out += [{"k": "three", "a": a, "b": b} for a in NAMES for b in NAMES]
    return out


def cases(shard, tier):
    if shard["k"] == "seq":
        for b in NAMES:
            yield dict(shard, b=b, v=1)
            yield dict(shard, b=b, v=0)
    elif shard["k"] == "three":
        for c in NAMES:
            yield dict(shard, c=c)
    elif shard["k"] == "copy":
        for how in ("deepcopy", "pickle"):
            for v in (0, 1):
                for side in (0, 1):
                    yield dict(shard, how=how, v=v, side=side)
    else:
        yield shard


# ---- two threads under control -----------------------------------------------------------------------------------------
class Sched:
    """Two threads, one token; the first thread gives it up at the k-th line of the library, the second at its m-th (m None: never)."""

    def __init__(self, a, b, switch):
        self.fns = [a, b]
        self.switch = switch  # per thread: the line counts at which it hands over
        self.count = [0, 0]
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.out = [None, None]
        self.root = os.path.join(os.path.realpath(env.REPO), "ciscoconfparse") + os.sep

    def hand(self, me):
        other = 1 - me
        if self.done[other]:
            return
        self.sem[other].release()
        self.sem[me].acquire()

    def body(self, me):
        self.sem[me].acquire()
        root, count, switch = self.root, self.count, self.switch[me]

        def local(frame, event, arg):
            if event == "line":
                count[me] += 1
                if count[me] in switch:
                    self.hand(me)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(root) else None

        sys.settrace(tracer)
        try:
            self.out[me] = list(self.fns[me]())
        except BaseException as e:
            self.out[me] = ["escaped", repr(e)]
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.sem[1 - me].release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.sem[0].release()
        for t in ts:
            t.join(60)
        return self.out, self.count, not any(t.is_alive() for t in ts)


def threads(case):
    """Every schedule of the pair; returns the number of them and the first one which is wrong."""
    a, b = case["a"], case["b"]
    fa, fb = (lambda: steps(a, 0)), (lambda: steps(b, 1))
    want = [_ALONE[a, 0], _ALONE[b, 1]]
    out, count, ok = Sched(fa, fb, [(), ()]).run()
    n = 1
    if not ok or out != want:
        return n, [0, out]
    la, lb = count
    gc.disable()
    for k in range(1 + case["part"], la + 1, PARTS):
        for m in ([None] if case["n"] == 1 else range(1, lb + 1, max(1, lb // 40))):
            out, count, ok = Sched(fa, fb, [(k,), () if m is None else (m,)]).run()
            n += 1
            if not ok or out != want:
                return n, [k, m, out]
        if n % 50 == 0:
            gc.collect()
    return n, None


def make(kind, v):
    """An object, how it is seen, how it is changed."""
    from ciscoconfparse.ccp_util import CiscoIOSInterface, CiscoRange, IPv4Obj, IPv6Obj, L4Object
    from ciscoconfparse.ciscoconfparse import CiscoPassword, HDiff

    def edit(p):
        p.ConfigObjs[0].append_to_family(" changed")
        p.append_line("more")
        p.commit()

    def conf(p):
        edit(p)
        p.ConfigObjs[0].delete()
        p.commit()

    def seen(p):
        return [tree(p), p.ioscfg, p.find_lines("i"), p.syntax, p.factory]
    return {
        "config": lambda: (P(IOS[v], factory=bool(v)), seen, conf),
        "nxos": lambda: (P(NX[v], syntax="nxos", factory=True), seen, edit),
        "asa": lambda: (P(ASA[v], syntax="asa", factory=True), lambda p: seen(p) + [g.network_strings for g in p.find_objects("^object-group")], conf),
        "junos": lambda: (P(JUN[v], syntax="junos"), seen, lambda p: p.replace_lines("a", "Q")),
        "line": lambda: (P(IOS[v]).ConfigObjs[1], lambda o: [o.text, o.linenum, txt(o.children), txt(o.all_parents), o.parent.text], lambda o: (o.re_sub("i", "Q"), o.children[0].re_sub("i", "R"))),
        "list": lambda: (P(IOS[v]).ConfigObjs, lambda c: [txt(c), len(c), [x.linenum for x in c]], lambda c: (c.reverse(), c.pop(), c[0].re_sub("e", "X"))),
        "v4": lambda: (IPv4Obj(f"10.{v}.0.5/24"), lambda a: [str(a), a.as_decimal, str(a.network), a.network_offset], lambda a: (setattr(a, "network_offset", 9), setattr(a, "prefixlen", 30))),
        "v6": lambda: (IPv6Obj(f"2001:db8:{v}::5/64"), lambda a: [str(a), a.as_decimal, str(a.network), a.network_offset], lambda a: (setattr(a, "network_offset", 9), setattr(a, "prefixlen", 120))),
        "range": lambda: (CiscoRange(f"1-{3 + v},9", result_type=int), lambda r: [r.as_list(result_type=int), r.as_compressed_str(), len(r)], lambda r: (r.append(50), r.remove(1), r.__delitem__(0))),
        "irange": lambda: (CiscoRange(f"Eth1/1-{3 + v}", result_type=None), lambda r: [[str(x) for x in r], r.as_compressed_str()], lambda r: (setattr(r[0], "port", 40), r.__delitem__(1))),
        "intf": lambda: (CiscoIOSInterface(f"Eth1/{v}.5"), lambda i: [str(i), i.as_dict(), i.sort_list], lambda i: (setattr(i, "port", 77), setattr(i, "prefix", "Q"))),
        "ports": lambda: (L4Object("tcp", f"range 5 {9 + v}", "asa"), lambda o: [o.port_list, repr(o)], lambda o: o.port_list.append(99)),
        "password": lambda: (CiscoPassword("04480E051A33490E"), lambda o: [o.decrypt(), o.ep], lambda o: setattr(o, "ep", "070C285F4D06")),
        "diff": lambda: (HDiff(["a", " b"], ["a", " c", "d"][:2 + v]), lambda d: [d.unified_diffs()[2:], tree_d(d)], lambda d: d.all_output_dicts.clear()),
    }[kind]()


def tree_d(d):
    return [[x["diff_word"], x["text"]] for x in d.all_output_dicts]


def check(case, R):
    k = case["k"]
    if k == "alone":
        for v in (0, 1):
            before = process()
            got = list(steps(case["u"], v))
            R.eq("again", got, _ALONE[case["u"], v], f"user {case['u']} {v} in a used process:")
            R.eq("process", process(), before, f"user {case['u']} {v} changes the process (directory, environment, recursion limit, files, threads, path, umask):")
            R.true("works", not any(isinstance(x, list) and x[:1] == ["raised"] for x in got), f"user {case['u']} {v}: {got[-1]}")
            R.state(repr(got))
            R.outcome(repr(got))
    elif k == "seq":
        a, b = case["a"], case["b"]
        v = case["v"]
        wa, wb = _ALONE[a, 0][:4], _ALONE[b, v][:4]

        def run():
            n = 0
            for order in orders(len(wa), len(wb)):
                g = [steps(a, 0), steps(b, v)]
                got = [[], []]
                for who in order:
                    got[who].append(next(g[who]))
                    if got[who][-1] != (wa, wb)[who][len(got[who]) - 1]:
                        return n, [order, who, got[who][-1], (wa, wb)[who][len(got[who]) - 1]]
                for x in g:
                    x.close()
                n += 1
            return n, None
        n, bad = in_child(run)
        R.step(n * (len(wa) + len(wb)))
        R.true("interleaving", bad is None, bad and f"users {a} and {b} in the order {bad[0]}: {(a, b)[bad[1]]} sees {bad[2]} and alone {bad[3]}")
        R.state(repr(case))
        R.outcome(repr((n, wa, wb)))
        R.trace(max(0, n - 1))
    elif k == "three":
        names = [case["a"], case["b"], case["c"]]
        want = [_ALONE[n, i % 2][:2] for i, n in enumerate(names)]

        def run():
            n = 0
            for order in sorted(set(itertools.permutations([0, 0, 1, 1, 2, 2]))):
                g = [steps(x, i % 2) for i, x in enumerate(names)]
                got = [[], [], []]
                for who in order:
                    got[who].append(next(g[who]))
                if got != want:
                    return n, [order, got]
                n += 1
            return n, None
        n, bad = in_child(run)
        R.step(n * 6)
        R.true("three", bad is None, bad and f"users {names} in the order {bad[0]}: {bad[1]} instead of {want}")
        R.state(repr(case))
        R.trace(max(0, n - 1))
    elif k == "thread":
        n, bad = in_child(lambda: threads(case))
        R.step(n)
        R.true("threads", bad is None, bad and f"users {case['a']} and {case['b']} in two threads, switch at line {bad[:-1]} of the library: {str(bad[-1])[:1500]}")
        R.state(repr(case))
        R.outcome(repr((case, n)))
        R.trace(max(0, n - 1))
    elif k == "copy":
        o, see, change = make(case["o"], case["v"])
        want = clean(see(o))
        c = copy.deepcopy(o) if case["how"] == "deepcopy" else pickle.loads(pickle.dumps(o))
        R.eq("copied", clean(see(c)), want, f"{case}:")
        first, second = (o, c) if case["side"] else (c, o)
        change(first)
        R.eq("other", clean(see(second)), want, f"{case}: one of the two was changed and the other one is")
        o2, see2, change2 = make(case["o"], case["v"])
        change2(o2)
        R.eq("changed", clean(see(first)), clean(see2(o2)), f"{case}: the changed one is")
        R.state(repr(case))
        R.outcome(repr(want))
    else:
        code = ("import json, sys; sys.path.insert(0, %r)\nfrom mc import env, core; env.load()\nfrom mc.checks import C44\n"
                "print(json.dumps([list(C44.steps(n, v)) for n in C44.NAMES for v in (0, 1)]))\ncore.drop_scratch()") % env.VERIF
        e = dict(os.environ, PYTHONHASHSEED=str(case["n"] * 7919 + 1), PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-c", code], env=e, capture_output=True, text=True, timeout=300)
        R.true("started", p.returncode == 0, p.stderr[-500:])
        got = json.loads(p.stdout.strip().split("\n")[-1])
        want = [_ALONE[n, v] for n in NAMES for v in (0, 1)]
        for (n, v), g, w in zip(itertools.product(NAMES, (0, 1)), got, want):
            R.eq("hash_seed", g, w, f"user {n} {v} with hash seed {e['PYTHONHASHSEED']}:")
        R.state(repr(case))
    R.trace()
