"""DNS lookups: every behaviour of a nameserver (answer, error, silence, delay, truncation) against a model of it, under a virtual clock."""
import contextlib
import itertools
import re
import time
import warnings

ID = "C41"
FILES = ["ccp_util.py"]
ASSUMPTIONS = ["dnspython does what its documentation says: below it, its UDP, TCP and zone transfer are a model of two nameservers, and the clock is virtual",
               "resolv.conf names another server than the one asked, which knows the same names with other values",
               "dns_lookup() raises on errors (the suite skips on that); which exception text an error carries is not claimed"]
SERVERS = {"192.0.2.1": "a", "192.0.2.2": "b", "2001:db8::1": "c", "192.0.2.53": "system"}
NAMES = {"ns1.test": "192.0.2.1", "ns2.test": "192.0.2.2"}
DATA = {
    "A": ["10.0.0.1", "10.0.0.2", "255.255.255.255"],
    "AAAA": ["2001:db8::a", "::1", "fe80::1"],
    "CNAME": ["x.example.", "y.z.example."],
    "MX": ["10 mail.example.", "0 m2.example.", "65535 m3.example."],
    "NS": ["ns.example.", "ns2.example.", "n3.other."],
    "PTR": ["host.example.", "h2.example.", "h3.example."],
    "TXT": ['"v=spf1 -all"', '"one" "two"', '"x"'],
}
QUESTIONS = {t: ["www.example.com", "a.example.", "x"] for t in DATA}
QUESTIONS["PTR"] = ["10.1.2.3", "192.0.2.255", "2001:db8::1", "::", "3.2.1.10.in-addr.arpa", "3.2.1.10.IN-ADDR.arpa."]
FAULTS = ["nx", "nodata", "servfail", "refused", "silent", "oserror", "other"]
BOUNDS = {
    "quick": "every query type x question x set of up to 3 records of the answer (with and without a CNAME chain, truncated or not) or one of 7 faults x 4 delays x 3 timeouts x spelling of the server; every pair of queries; zone transfers "
             "of up to 3 nodes; invalid arguments",
    "thorough": "the same and every triple of queries",
}


class Clock:
    def __init__(self):
        self.now = 1000.0

    def time(self):
        return self.now

    def sleep(self, n):
        self.now += n


class World:
    """What each server says to each question, when, and who was asked."""

    def __init__(self):
        self.zones = {ip: {} for ip in SERVERS}
        self.asked = []
        self.clock = Clock()
        self.latency = 0.0
        self.xfrs = []

    def say(self, ip, question, rtype, behaviour, records=()):
        self.zones[ip][(question, rtype)] = (behaviour, tuple(records))

    def reply(self, q, where, timeout, tcp, raise_on_truncation):
        import dns.exception
        import dns.flags
        import dns.message
        import dns.rcode
        import dns.rdatatype
        import dns.rrset
        name = q.question[0].name
        rtype = dns.rdatatype.to_text(q.question[0].rdtype)
        self.asked.append((where, str(name), rtype))
        if where not in self.zones:
            self.clock.now += timeout
            raise dns.exception.Timeout(timeout=timeout)
        behaviour, records = self.zones[where].get((str(name).lower(), rtype), ("nx", ()))
        if behaviour == "silent" or self.latency > timeout:
            self.clock.now += timeout
            raise dns.exception.Timeout(timeout=timeout)
        self.clock.now += self.latency
        if behaviour == "oserror":
            raise OSError("Network is unreachable")
        r = dns.message.make_response(q)
        if behaviour in ("nx", "servfail", "refused"):
            r.set_rcode({"nx": dns.rcode.NXDOMAIN, "servfail": dns.rcode.SERVFAIL, "refused": dns.rcode.REFUSED}[behaviour])
        elif behaviour == "other":
            r.answer.append(dns.rrset.from_text("other.example.", 60, "IN", rtype, *records))
        elif behaviour == "trunc" and not tcp:
            r.flags |= dns.flags.TC
            if raise_on_truncation:
                raise dns.message.Truncated(message=r)
        elif behaviour in ("ok", "trunc"):
            r.answer.append(dns.rrset.from_text(name, 60, "IN", rtype, *records))
        elif behaviour == "chain":
            r.answer.append(dns.rrset.from_text(name, 60, "IN", "CNAME", "mid.example."))
            r.answer.append(dns.rrset.from_text("mid.example.", 60, "IN", "CNAME", "end.example."))
            r.answer.append(dns.rrset.from_text("end.example.", 60, "IN", rtype, *records))
        return dns.message.from_wire(r.to_wire())

    def udp(self, q, where, timeout=None, *a, raise_on_truncation=False, **kw):
        return self.reply(q, where, timeout, False, raise_on_truncation)

    def tcp(self, q, where, timeout=None, *a, **kw):
        return self.reply(q, where, timeout, True, False)

    def xfr(self, where, zone, *a, **kw):
        import dns.inet
        import dns.message
        import dns.name
        import dns.rrset
        dns.inet.af_for_address(where)  # ValueError for names, as the real one
        self.xfrs.append((where, str(zone), kw.get("lifetime")))
        z = dns.name.from_text(str(zone))
        m = dns.message.make_response(dns.message.make_query(z, "AXFR"))
        soa = dns.rrset.from_text(z, 60, "IN", "SOA", "ns.example. root.example. 1 2 3 4 5")
        m.answer.append(soa)
        for n, rtype, text in self.zones[where][("zone", str(z))]:
            m.answer.append(dns.rrset.from_text(dns.name.from_text(n, z), 60, "IN", rtype, text))
        m.answer.append(soa)
        for s in m.answer:
            s.name = s.name.relativize(z)
            for rd in list(s):
                s.remove(rd)
                s.add(rd.replace(**({"mname": rd.mname.relativize(z), "rname": rd.rname.relativize(z)} if s.rdtype == 6 else {})))
        yield m

    @contextlib.contextmanager
    def running(self):
        """The model stands below dnspython, for the time of one call."""
        import socket
        import dns.name
        import dns.query
        import dns.resolver

        def conf(res, f=None):
            res.nameservers = ["192.0.2.53"]
            res.search, res.domain = [], dns.name.root

        def host(name):
            if name in NAMES:
                return NAMES[name]
            if re.fullmatch(r"[\d.]+", name):
                return name
            raise socket.gaierror(-2, "Name or service not known")
        todo = [(dns.query, "udp", self.udp), (dns.query, "tcp", self.tcp), (dns.query, "xfr", self.xfr), (dns.resolver.Resolver, "read_resolv_conf", conf), (socket, "gethostbyname", host),
                (time, "time", self.clock.time), (time, "sleep", self.clock.sleep), (time, "monotonic", self.clock.time), (time, "perf_counter", self.clock.time)]
        saved = [(o, n, getattr(o, n)) for o, n, _ in todo]
        old, dns.resolver.default_resolver = dns.resolver.default_resolver, None
        try:
            for o, n, f in todo:
                setattr(o, n, f)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                yield
        finally:
            for o, n, f in saved:
                setattr(o, n, f)
            dns.resolver.default_resolver = old


def asked_name(question, rtype):
    import ipaddress
    if rtype == "PTR" and not question.lower().rstrip(".").endswith("arpa"):
        question = ipaddress.ip_address(question).reverse_pointer
    return question.lower().rstrip(".") + "."


def shards(tier):
    out = [{"k": "one", "t": t, "q": q} for t in DATA for q in QUESTIONS[t]]
    return out + [{"k": "seq", "first": i} for i in range(len(SEQ))] + [{"k": "xfr"}, {"k": "bad"}, {"k": "old"}]


SEQ = [("A", "x", "ok", [0]), ("A", "x", "nx", []), ("A", "y", "ok", [1, 2]), ("AAAA", "x", "ok", [0, 1]), ("MX", "x", "ok", [0, 1, 2]), ("TXT", "x", "ok", [1]), ("PTR", "10.1.2.3", "ok", [2]), ("NS", "y", "silent", []),
       ("CNAME", "x", "ok", [1]), ("A", "x", "chain", [1])]


def cases(sh, tier):
    if sh["k"] == "one":
        n = len(DATA[sh["t"]])
        behaviours = [(b, list(s)) for k in range(1, n + 1) for s in itertools.combinations(range(n), k) for b in (("ok", "trunc", "chain") if sh["t"] != "CNAME" else ("ok", "trunc")) if sh["t"] != "CNAME" or k == 1]
        behaviours += [(f, [0] if f == "other" else []) for f in FAULTS]
        for b, recs in behaviours:
            for lat in ((0, .4, 1, 1.5) if b not in ("silent",) else (0,)):
                for tmo in (None, .5, 1, 3) if lat else (None, .5):
                    for server in ("192.0.2.1", "ns1.test", "192.0.2.2"):
                        for up in (True, False) if server == "ns1.test" else (True,):
                            yield {"k": "one", "t": sh["t"], "q": sh["q"], "b": b, "r": recs, "lat": lat, "tmo": tmo, "s": server, "up": up}
    elif sh["k"] == "seq":
        for n in (1,) if tier == "quick" else (1, 2):
            for rest in itertools.product(range(len(SEQ)), repeat=n):
                for servers in itertools.product(("192.0.2.1", "ns2.test"), repeat=n + 1):
                    yield {"k": "seq", "ops": [sh["first"], *rest], "servers": servers}
    elif sh["k"] == "xfr":
        recs = [("@", "NS", "ns.example."), ("www", "A", "10.0.0.1"), ("mail", "MX", "5 m.example."), ("www", "TXT", '"hi"')]
        for n in range(1, 5):
            for some in itertools.combinations(recs, n):
                for s in ("192.0.2.1", "ns1.test"):
                    for z in ("example.com", "example.com.", "x"):
                        for tmo in (None, 1.5):
                            yield {"k": "xfr", "recs": some, "s": s, "z": z, "tmo": tmo}
    elif sh["k"] == "bad":
        good = {"input_str": "x", "query_type": "A", "server": "192.0.2.1", "timeout": 1}
        for key, vals in (("input_str", [""]), ("query_type", ["", "SOA", "AA", "A ", "ANY", "SRV"]), ("server", [""]), ("timeout", [0, -1, -.5, 0.0])):
            for v in vals:
                yield {"k": "bad", "kw": dict(good, **{key: v})}
        for v in ("x", "host.example.com", "1.2.3", "1.2.3.4.5"):
            yield {"k": "bad", "kw": dict(good, query_type="PTR", input_str=v)}
    else:
        for b, recs in [("ok", [0]), ("ok", [2, 0]), ("ok", [0, 1, 2]), ("trunc", [1]), ("chain", [1, 2])] + [(f, [0] if f == "other" else []) for f in FAULTS]:
            for fn in ("dns_lookup", "dns6_lookup", "reverse_dns_lookup"):
                for s in ("", "192.0.2.1", "192.0.2.2"):
                    for lat in (0, .4, 1.5):
                        for q in ("www.example.com", "x") if fn != "reverse_dns_lookup" else ("10.1.2.3", "2001:db8::1"):
                            for t in ("A", "MX", "TXT", "NS") if fn == "dns_lookup" else ("AAAA",) if fn == "dns6_lookup" else ("PTR",):
                                yield {"k": "old", "fn": fn, "s": s, "q": q, "t": t, "b": b, "r": recs, "lat": lat}


def shown(t, records):
    """(result text, preference) of each record."""
    out = []
    for r in records:
        if t == "MX":
            pref, name = r.split()
            out.append((name, int(pref)))
        else:
            out.append((r, -1))
    return out


def ask(world, R, t, q, b, recs, server, tmo, up=True):
    from ciscoconfparse.ccp_util import dns_query
    ip = NAMES.get(server, server)
    what = f"dns_query({q!r}, {t!r}, {server!r}, timeout={tmo}) of a server which says {b} {recs} after {world.latency} s:"
    world.asked = []
    start = world.clock.now
    kw = {} if tmo is None else {"timeout": tmo}
    with world.running():
        got = dns_query(q, t if up else t.lower(), server, **kw)
    elapsed = world.clock.now - start
    tmo = 2.0 if tmo is None else tmo
    R.step(max(1, len(world.asked)))
    R.true("set", isinstance(got, set) and len(got) >= 1, f"{what} {got!r} is no set of responses")
    R.eq("asked", sorted({w for w, _, _ in world.asked}), [ip], f"{what} servers which were asked:")
    R.eq("question", sorted({(n.lower(), x) for _, n, x in world.asked}), [(asked_name(q, t), t)], f"{what} questions which were asked:")
    R.true("timeout", elapsed <= tmo + .2, f"{what} took {elapsed} s")
    ok = b in ("ok", "trunc", "chain") and world.latency * (2 if b == "trunc" else 1) <= tmo + 1e-9
    for r in got:
        R.eq("type", r.query_type, t, f"{what} query_type:")
        R.true("duration", abs(r.duration - elapsed) < 1e-6, f"{what} duration {r.duration}, it took {elapsed}")
        R.eq("str", str(r), r.result_str, f"{what} str():")
        R.true("input", str(r.input_str).lower().rstrip(".") in (q.lower().rstrip("."), asked_name(q, t).rstrip(".")), f"{what} input_str {r.input_str!r}")
    if not ok:
        R.eq("error", [(r.has_error, r.result_str, bool(str(r.error_str))) for r in got], [(True, "", True)], f"{what} has_error, result_str, error_str:")
        R.true("error repr", all("error" in repr(r) for r in got), f"{what} {got}")
        R.outcome((t, "error", type(next(iter(got)).error_str).__name__))
        return
    R.eq("no error", [(r.has_error, r.error_str) for r in got], [(False, "")] * len(recs), f"{what} {got} has_error, error_str:")
    want = shown(t, [DATA[t][i] for i in recs] if world.letter(ip) == "a" else [world.alter(t, DATA[t][i]) for i in recs])
    if t == "TXT":
        texts = sorted(tuple(re.findall(r"b'([^']*)'|b?\"([^\"]*)\"", r.result_str)) for r in got)
        R.eq("answer", sorted(tuple(re.findall(r'"([^"]*)"', w)) for w, _ in want), sorted(tuple(a or b for a, b in x) for x in texts), f"{what} {[r.result_str for r in got]}:")
    else:
        R.eq("answer", sorted((r.result_str, r.preference) for r in got), sorted(want), f"{what} results and preferences:")
    R.outcome((t, len(got)))


def alter(t, record):
    """The same record with another value, for the servers which are not asked."""
    return {"A": lambda r: r.replace("10.", "11.").replace("255.255.255.255", "11.9.9.9"), "AAAA": lambda r: "2001:db8:ffff::" + str(len(r)), "TXT": lambda r: r.replace('"', '"b', 1)}.get(
        t, lambda r: r[:-1] + ".b.")(record)


World.alter = staticmethod(alter)
World.letter = staticmethod(lambda ip: SERVERS[ip])


def teach(world, t, q, b, recs):
    for ip in world.zones:
        world.say(ip, asked_name(q, t), t, b, [DATA[t][i] if SERVERS[ip] == "a" else alter(t, DATA[t][i]) for i in recs])


def check(case, R):
    world = World()
    R.state(str(case))
    R.trace()
    k = case["k"]
    if k == "one":
        world.latency = case["lat"]
        t, q = case["t"], case["q"]
        teach(world, t, q, case["b"], case["r"])
        if SERVERS[NAMES.get(case["s"], case["s"])] == "a":  # every other server says something else
            for ip in world.zones:
                if SERVERS[ip] != "a" and case["b"] in FAULTS:
                    world.say(ip, asked_name(q, t), t, "ok", DATA[t][:1])
        ask(world, R, t, q, case["b"], case["r"], case["s"], case["tmo"], case["up"])
    elif k == "seq":
        for i, s in zip(case["ops"], case["servers"]):
            t, q, b, recs = SEQ[i]
            teach(world, t, q, b, recs)
            ask(world, R, t, q, b, recs, s, 1)
    elif k == "xfr":
        from ciscoconfparse.ccp_util import dns_query
        z = case["z"].rstrip(".") + "."
        ip = NAMES.get(case["s"], case["s"])
        # a zone without name servers is none
        recs = [list(r) for r in case["recs"]]
        if not any(r[1] == "NS" for r in recs):
            recs.append(["@", "NS", "ns.example."])
        world.zones[ip][("zone", z)] = recs
        kw = {} if case["tmo"] is None else {"timeout": case["tmo"]}
        with world.running():
            got = dns_query(case["z"], "AXFR", case["s"], **kw)
        R.step()
        R.eq("xfr", world.xfrs, [(ip, case["z"], case["tmo"] or 2.0)], f"{case}: transfers, with their time limit:")
        lines = sorted(tuple(x.split()) for text in got for x in text.splitlines())
        want = sorted([("@", "60", "IN", "SOA", "ns.example.", "root.example.", "1", "2", "3", "4", "5")] + [(n, "60", "IN", rt, *txt.split()) for n, rt, txt in recs])
        R.eq("zone", lines, want, f"{case}: records of the zone:")
        R.outcome(len(lines))
    elif k == "bad":
        from ciscoconfparse.ccp_util import dns_query
        R.step()
        with world.running():
            try:
                got = dns_query(**case["kw"])
            except Exception as e:
                got = None
                R.outcome(type(e).__name__)
        R.eq("refused", (got, world.asked), (None, []), f"dns_query({case['kw']}) is refused without a question:")
    else:
        import ciscoconfparse.ccp_util as u
        import dns.exception
        world.latency = case["lat"]
        t, q, b = case["t"], case["q"], case["b"]
        teach(world, t, q, b, case["r"])
        ip = case["s"] or ("4.2.2.2" if case["fn"] == "reverse_dns_lookup" else "192.0.2.53")
        kw = {"timeout": 1}
        if case["s"]:
            kw["server"] = case["s"]
        if case["fn"] == "dns_lookup":
            kw["record_type"] = t
        what = f"{case['fn']}({q!r}, {kw}) of a server which says {b} {case['r']} after {case['lat']} s:"
        start = world.clock.now
        got = None
        with world.running():
            try:
                got = getattr(u, case["fn"])(q, **kw)
            except dns.exception.DNSException:
                if case["fn"] != "dns_lookup":
                    raise
        R.step(max(1, len(world.asked)))
        R.eq("asked", sorted({w for w, _, _ in world.asked}), [ip], f"{what} servers which were asked:")
        R.true("timeout", world.clock.now - start <= 1.2, f"{what} took {world.clock.now - start} s")
        ok = b in ("ok", "trunc", "chain") and case["lat"] * (2 if b == "trunc" else 1) <= 1 and ip in SERVERS
        recs = [DATA[t][i] if SERVERS.get(ip) == "a" else alter(t, DATA[t][i]) for i in case["r"]]
        R.outcome((case["fn"], ok))
        if got is None:
            R.true("error", not ok, f"{what} raised")
            return
        if case["fn"] == "reverse_dns_lookup":
            R.eq("addrs", got["addrs"], [q], f"{what} addrs:")
            R.eq("error", bool(got["error"]), not ok, f"{what} error:")
            R.true("name", got["name"] in (recs if ok else [""]), f"{what} {got} of {recs}")
            return
        R.eq("error", bool(got["error"]), not ok, f"{what} error:")
        R.eq("answer", sorted(got["addrs"]), sorted(recs) if ok else [], f"{what} addrs:")
        R.eq("name", (got["name"], got.get("record_type", t)), (q, t), f"{what} name and type:")
