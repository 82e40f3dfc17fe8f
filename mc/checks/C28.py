"""HSRP of an IOS interface: the attributes of the interface and of each of its groups."""
import itertools

from mc import attrs
from mc.attrs import SKIP, WORDS, Table, numbers

ID = "C28"
ASSUMPTIONS = ["the primary address of a group stands before its secondary ones, as IOS writes them", "the attributes of the interface itself (hsrp_priority, ...) are for one group, as documented; they are judged with one "
               "group only", "millisecond timers of the interface itself are not claimed (documented FIXME); those of the group are"]
G = {
    "ip": [["10.0.0.2"], ["192.0.2.254"], ["10.0.0.2", "10.0.0.9"], ["10.0.0.3", "10.0.0.8", "10.1.1.1"]], "v6": ["autoconfig", "fe80::2"], "prio": [1, 110, 255], "preempt": [None, 0, 30, (60, 120)],
    "timers": [(1, 3), (5, 15), ("msec 250", "msec 750"), (1, "msec 3000"), (254, 255)],
    "track": [[("Serial0", None)], [("GigabitEthernet0/0/1", 20)], [("1", None), ("Serial1/0", 5)], [("100 decrement", 30), ("2 decrement", 1)], [("Port-channel 1", 15)]],
    "auth": ["md5 key-chain HSRPKEYS", "text cisco", "md5 key-string secret"], "name": ["G1"],
}
F = {f"{g}.{k}": v for g in ("1", "12") for k, v in G.items()}
F.update({"ver": [1, 2], "bia": [True], "addr": [("10.0.0.1", "255.255.255.0"), "dhcp"], "desc": ["standby 1 ip 9.9.9.9", "see standby 7 ip", "use-bia standby 1 preempt", "x"]})

WIDE = {f"{g}.{k}": v for g in ("1", "12") for k, v in {
    "ip": [[f"{a}.{b}.{a}.{b}"] for a, b in ((1, 255), (10, 0), (100, 99), (223, 1), (8, 88))], "v6": ["fe80::%x" % n for n in numbers(1, 65535)] + ["2001:db8::1/64"], "prio": numbers(0, 255),
    "preempt": numbers(0, 3600) + [(n, n) for n in numbers(0, 3600)], "timers": [(n, n + 1) for n in numbers(1, 254)] + [(f"msec {n}", f"msec {3 * n}") for n in numbers(15, 999)] + [(f"msec {n}", 4) for n in numbers(15, 999)],
    "track": [[(str(n), None)] for n in numbers(1, 1000)] + [[("Serial1/0", n)] for n in numbers(1, 255)] + [[(f"{n} decrement", n)] for n in numbers(1, 255)], "auth": [f"md5 key-chain {w}" for w in WORDS], "name": WORDS,
}.items()}

def lines(n, v):
    if n == "ver":
        return [f" standby version {v}"]
    if n == "bia":
        return [" standby use-bia"]
    if n == "addr":
        return [" ip address dhcp" if v == "dhcp" else f" ip address {v[0]} {v[1]}"]
    if n == "desc":
        return [f" description {v}"]
    g, k = n.split(".")
    p = f" standby {g} "
    if k == "ip":
        return [p + f"ip {v[0]}"] + [p + f"ip {x} secondary" for x in v[1:]]
    if k == "v6":
        return [p + f"ipv6 {v}"]
    if k == "prio":
        return [p + f"priority {v}"]
    if k == "preempt":
        return [p + "preempt" + ("" if v is None else f" delay minimum {v}" if isinstance(v, int) else f" delay minimum {v[0]} reload {v[1]}")]
    if k == "timers":
        return [p + f"timers {v[0]} {v[1]}"]
    if k == "track":
        return [p + f"track {i}" + ("" if d is None else f" {d}") for i, d in v]
    if k == "auth":
        return [p + f"authentication {v}"]
    return [p + f"name {v}"]


def secs(x):
    return x if isinstance(x, int) else int(x.split()[1]) / 1000.0


def group(h, ch, g):
    c = {k.split(".")[1]: v for k, v in ch.items() if k.startswith(g + ".")}
    if not {"ip", "v6"} & set(c):
        return None
    pre = c.get("preempt")
    trk = [{"name": i.split(" decrement")[0], "decrement": 10 if d is None else d, "group": int(g), "weighting": None} for i, d in c.get("track", [])]
    return {
        "group": int(g), "interface_name": h["text"].split(" ", 1)[1], "ip": c["ip"][0] if "ip" in c else "", "ipv6": c.get("v6", ""), "has_ipv6": "v6" in c, "priority": c.get("prio", 100), "preempt": "preempt" in c,
        "preempt_delay": 0 if pre is None else pre if isinstance(pre, int) else pre[0], "hello_timer": secs(c["timers"][0]) if "timers" in c else 3, "hold_timer": secs(c["timers"][1]) if "timers" in c else 10,
        "version": ch.get("ver", 1), "use_bia": "bia" in ch, "has_hsrp_track": "track" in c, "tracks": trk,
        "keychain": c["auth"].split(" ")[2] if c.get("auth", "").startswith("md5 key-chain ") else "", "has_authentication_md5": c.get("auth", "").startswith("md5 key-chain "),
    }


def get_groups(o):
    out = []
    for g in o.hsrp_interfaces:
        t = g.interface_tracking
        assert g == g and not (g != g) and hash(g) == hash(g) and g.hsrp_group == g.group and g.ip == g.ipv4 and str(g) and repr(g)
        for a in t:
            for b in t:
                assert (a == b) == (a is b) and (a is not b or hash(a) == hash(b))
            assert a.name == a.interface == a.interface_name and a.name in str(a)
        again = o.hsrp_interfaces
        assert again == o.hsrp_interfaces and [x.group for x in again] == sorted(x.group for x in again)
        out.append({"group": g.group, "interface_name": g.interface_name, "ip": g.ip, "ipv6": g.ipv6, "has_ipv6": g.has_ipv6, "priority": g.priority, "preempt": g.preempt, "preempt_delay": g.preempt_delay,
                    "hello_timer": g.hello_timer, "hold_timer": g.hold_timer, "version": g.version, "use_bia": g.use_bia, "has_hsrp_track": g.has_hsrp_track, "keychain": g.authentication_md5_keychain,
                    "has_authentication_md5": g.has_authentication_md5,
                    "tracks": [{"name": x.name, "decrement": x.decrement, "group": x.tracking_interface_group, "weighting": x.weighting} for x in t]})
    return out


def one(fn):
    """Attributes of the interface: judged if only one of the groups has commands."""
    def ref(h, ch):
        gs = {k.split(".")[0] for k in ch if "." in k}
        if len(gs) > 1:
            return SKIP
        g = gs.pop() if gs else "1"
        return fn({k.split(".")[1]: v for k, v in ch.items() if "." in k}, ch, int(g))
    return ref


def ipaddr(c, ch, g):
    if not isinstance(ch.get("addr"), tuple):
        return ""
    return c["ip"][0] if "ip" in c else ""


def prio(c, ch, g):
    return c.get("prio", 100) if ipaddr(c, ch, g) else 0


def sec_timer(i):
    def fn(c, ch, g):
        t = c.get("timers")
        return 0.0 if t is None else SKIP if not all(isinstance(x, int) for x in t) else float(t[i])
    return fn


A = {
    "groups": (get_groups, lambda h, ch: [x for x in (group(h, ch, "1"), group(h, ch, "12")) if x]),
    "hsrp_ip_addr": one(ipaddr), "has_ip_hsrp": one(lambda c, ch, g: bool(ipaddr(c, ch, g))),
    "hsrp_group": one(lambda c, ch, g: g if "ip" in c else -1),
    "hsrp_priority": one(prio), "hsrp_hello_timer": one(sec_timer(0)), "hsrp_hold_timer": one(sec_timer(1)),
    "has_hsrp_track": one(lambda c, ch, g: "track" in c), "hsrp_track": one(lambda c, ch, g: c["track"][0][0].split(" decrement")[0] if "track" in c else ""),
    "has_hsrp_usebia": lambda h, ch: "bia" in ch, "has_hsrp_preempt": one(lambda c, ch, g: "preempt" in c),
    "hsrp_authentication_md5_keychain": one(lambda c, ch, g: c["auth"].split(" ")[2] if c.get("auth", "").startswith("md5 key-chain ") else ""),
    "has_hsrp_authentication_md5": one(lambda c, ch, g: c.get("auth", "").startswith("md5 key-chain ")),
    "description": lambda h, ch: ch.get("desc", ""),
}
HEADERS = [{"text": "interface GigabitEthernet1/0", "pre": []}, {"text": "interface Vlan10", "pre": [["addr", 0], ["1.ip", 0]]}, {"text": "interface Vlan12", "pre": [["addr", 0], ["12.ip", 0]]},
           {"text": "interface Vlan112", "pre": [["addr", 0], ["12.ip", 1], ["1.ip", 0]]}]
OTHER = [{"text": "interface Vlan2"}, {"text": "interface Vlan3"}]
NOISE = [[" standby delay minimum 30 reload 60"], [" no standby 1 preempt"], [" standby mac-refresh 20"], [" glbp 1 ip 10.0.0.3"], [" vrrp 1 ip 10.0.0.4"], [" vrrp 1 priority 120"], [" standby 1 mac-address 0000.0c07.ac01"],
         [" ip redirects"], [" no standby use-bia"], [" standby bfd"], [" service-policy input use-bia"]]
T = Table(syntax="ios", headers=HEADERS, other=OTHER, features=F, wide=WIDE, lines=lines, noise=NOISE, attrs=A)
NV = sum(len(v) for v in F.values())
BOUNDS = {
    "quick": f"{NV} values of {len(F)} features of two groups (1 and 12) and the interface: single and every ordered pair, on an interface without HSRP, with either group and with both; contrary neighbours; "
             f"{len(NOISE)} unrelated lines; wide value tables (every number of digits and bits, every mask, names of every kind of character); removal and re-adding; ordered triples of the values of each group",
    "thorough": "ordered quadruples of the values of each group",
}
BOUNDS["quick"] += "; every value also with the section indented by 1, 2, 3 and 7 blanks"


def shards(tier):
    out = [{"k": "wide"}, {"k": "single"}, {"k": "nb"}, {"k": "hist"}]
    n = 8 if tier == "quick" else 16
    out += [{"k": "noise", "part": i, "parts": 4} for i in range(4)]
    out += [{"k": "pair", "part": i, "parts": n} for i in range(n)]
    out += [{"k": "many", "a": a} for a in range(len(G))]
    return out


def cases(sh, tier):
    k = sh["k"]
    if k == "wide":
        yield from attrs.wides(T, [1, 3])
    elif k == "single":
        yield from attrs.singles(T)
    elif k == "nb":
        yield from attrs.neighbours(T, [0, 3])
    elif k == "hist":
        yield from attrs.histories(T, [0, 3])
    elif k == "noise":
        yield from attrs.noisy(T, [1], sh["part"], sh["parts"])
    elif k == "pair":
        yield from attrs.pairs(T, [1, 3] if tier == "quick" else [0, 1, 2, 3], sh["part"], sh["parts"])
    else:
        names = list(G)
        for rest in itertools.permutations([x for x in names if x != names[sh["a"]]], 2 if tier == "quick" else 3):
            for g in ("1", "12"):
                f = [f"{g}.{x}" for x in [names[sh["a"]], *rest]]
                for idx in itertools.product(*[range(len(F[x])) for x in f]):
                    yield {"h": 2, "f": [[x, i] for x, i in zip(f, idx)], "nb": 0}


def check(case, R):
    T.check(case, R)
