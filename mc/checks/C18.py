"""IPv4Obj: every accepted spelling denotes one address and one prefix, every derived value is that of the pair, and every history of changes keeps it so."""
import itertools

ID = "C18"
OCT = {"quick": [0, 1, 127, 128, 192, 255], "thorough": [0, 1, 9, 10, 100, 127, 128, 192, 224, 254, 255]}
BAD_OCT = ["1", "0", "255", "256", "01", "", "a", "-1", "1000"]
MASKS = ["", "/24", "/0", "/32", "/33", "/-1", "/", " 255.255.255.0", "/255.255.255.0", "/0.0.0.0", " 0.0.0.255", "/255.0.255.0", " /24", "  255.0.0.0", "/24x",
         " 255.255.255.255", "/255.255.255", "/1.1.1.1.1", " 24", " ", "/24 "]
STARTS = ["10.0.0.5/24", "0.0.0.0/0", "255.255.255.255/32", "172.16.3.9/31", "192.168.255.254/30"]
OPS = ([["len", a, k] for a in ("prefixlen", "prefixlength", "masklen", "masklength") for k in (0, 1, 24, 31, 32)] + [["len", "prefixlen", k] for k in (30, 33, -1)]
       + [["off", k] for k in (0, 1, 2, 255, 256, -1)] + [["add", k] for k in (0, 1, 255, -1, 2**32)] + [["sub", k] for k in (0, 1, 256, -3, 2**32)] + [["copy"]])
BOUNDS = {
    "quick": "1296 addresses x 33 prefix lengths x 5 spellings, every derived value; 9^4 octet spellings x 21 mask spellings accepted or refused; every history of up to 3 of 40 changes from 5 objects",
    "thorough": "14641 addresses; every history of up to 4 changes",
}
ASSUMPTIONS = ["a dotted mask which is a contiguous host mask is read as one, as the standard library does", "is_multicast/is_private/is_reserved are judged on /32 objects only"]
FULL = 2**32 - 1


def shards(tier):
    out = [{"k": "val", "a": a, "b": b} for a in OCT[tier] for b in OCT[tier]]
    out += [{"k": "str", "a": a, "b": b} for a in BAD_OCT for b in BAD_OCT]
    out += [{"k": "hist", "s": s, "first": i, "d": 3 if tier == "quick" else 4} for s in STARTS for i in range(len(OPS))]
    out.append({"k": "types"})
    return out


def cases(shard, tier):
    if shard["k"] == "val":
        for c in OCT[tier]:
            for d in OCT[tier]:
                yield {"k": "val", "o": [shard["a"], shard["b"], c, d]}
    elif shard["k"] == "str":
        for c in BAD_OCT:
            for d in BAD_OCT:
                yield {"k": "str", "o": [shard["a"], shard["b"], c, d]}
    elif shard["k"] == "types":
        yield {"k": "types"}
    else:
        for n in range(shard["d"]):
            for rest in itertools.product(OPS, repeat=n):
                yield {"k": "hist", "s": shard["s"], "ops": [OPS[shard["first"]]] + list(rest)}


def dotted(n):
    return ".".join(str(n >> s & 255) for s in (24, 16, 8, 0))


def mask_of(p):
    return FULL << (32 - p) & FULL


def numbers(R, o, ip, p, w):
    m = mask_of(p)
    net, last = ip & m, ip | (FULL ^ m)
    got = (o.as_decimal, o.as_int, int(o), o.prefixlen, o.prefixlength, o.masklen, o.masklength, o.as_decimal_network, o.as_decimal_broadcast, o.network_offset)
    R.eq("numbers", got, (ip, ip, ip, p, p, p, p, net, last, ip - net), w)
    R.eq("repr", repr(o), f"<IPv4Obj {dotted(ip)}/{p}>", w)


def everything(R, o, ip, p, w):
    numbers(R, o, ip, p, w)
    m = mask_of(p)
    net, last = ip & m, ip | (FULL ^ m)
    by = [ip >> s & 255 for s in (24, 16, 8, 0)]
    nby = [net >> s & 255 for s in (24, 16, 8, 0)]
    got = {"ip": str(o.ip), "ipv4": str(o.ipv4), "ip_object": int(o.ip_object), "exploded": o.exploded, "packed": o.packed, "netmask": str(o.netmask), "hostmask": str(o.hostmask),
           "inverse": str(o.inverse_netmask), "network": str(o.network), "network_object": str(o.network_object), "broadcast": str(o.broadcast), "numhosts": o.numhosts,
           "zp": o.as_zeropadded, "zpn": o.as_zeropadded_network, "hex": o.as_hex, "bt": o.as_binary_tuple, "ht": o.as_hex_tuple, "ca": o.as_cidr_addr, "cn": o.as_cidr_net,
           "v": o.version, "max": o.max_int, "index": hex(o), "empty": o.empty}
    want = {"ip": dotted(ip), "ipv4": dotted(ip), "ip_object": ip, "exploded": dotted(ip), "packed": bytes(by), "netmask": dotted(m), "hostmask": dotted(FULL ^ m),
            "inverse": dotted(FULL ^ m), "network": f"{dotted(net)}/{p}", "network_object": f"{dotted(net)}/{p}", "broadcast": dotted(last),
            "numhosts": 1 if p == 32 else 2 if p == 31 else 2 ** (32 - p) - 2,
            "zp": "%03d.%03d.%03d.%03d" % tuple(by), "zpn": "%03d.%03d.%03d.%03d/%d" % (*nby, p), "hex": hex(ip), "bt": tuple(format(b, "08b") for b in by),
            "ht": tuple(format(b, "02x") for b in by), "ca": f"{dotted(ip)}/{p}", "cn": f"{dotted(net)}/{p}", "v": 4, "max": FULL, "index": hex(ip), "empty": False}
    R.eq("derived", got, want, w)
    it = iter(o)
    R.eq("iterate", [int(x) for x in itertools.islice(it, 3)], list(range(net, min(last, net + 2) + 1)), w)


def parse_mask(s):
    """(accepted, prefix length) for what follows the address."""
    if s.strip() == "":
        return (s == "" or s.isspace()), 32
    sep = "/" if s[0] == "/" else " " if s[0].isspace() else None
    if sep is None:
        return False, 0
    body = s[1:].strip() if sep == "/" else s.strip()
    parts = body.split(".")
    if len(parts) == 4 and all(x.isdigit() and int(x) < 256 for x in parts):
        n = int.from_bytes(bytes(int(x) for x in parts), "big")
        for p in range(33):
            if n == mask_of(p):
                return True, p
        for p in range(33):
            if n == FULL ^ mask_of(p):
                return True, p
        return False, 0
    if sep == "/" and body.isdigit() and s[1] != " " and int(body) <= 32:
        return True, int(body)
    return False, 0


def check(case, R):
    from ciscoconfparse.ccp_util import IPv4Obj
    from ciscoconfparse.errors import RequirementFailure
    if case["k"] == "val":
        by = case["o"]
        ip = int.from_bytes(bytes(by), "big")
        a = ".".join(map(str, by))
        for p in range(33):
            m = dotted(mask_of(p))
            for n, s in enumerate((f"{a}/{p}", f"{a} {m}", f"{a}/{m}", f"  {a}/{p} ", f"{a}   {m}")):
                o = IPv4Obj(s)
                if n == 0:
                    everything(R, o, ip, p, s)
                    everything(R, IPv4Obj(o), ip, p, f"copy of {s}")
                    R.eq("iteration_is_pure", repr(o), f"<IPv4Obj {a}/{p}>", s)
                else:
                    numbers(R, o, ip, p, repr(s))
                R.state((ip, p))
            host = ip & (FULL ^ mask_of(p))
            try:
                o = IPv4Obj(f"{a}/{p}", strict=True)
            except ValueError:
                R.true("strict", host != 0, f"{a}/{p} refused in strict mode")
            else:
                R.true("strict", host == 0, f"{a}/{p} accepted in strict mode")
                numbers(R, o, ip, p, f"strict {a}/{p}")
        everything(R, IPv4Obj(a), ip, 32, a)
        everything(R, IPv4Obj(ip), ip, 32, ip)
        o = IPv4Obj(a)
        n1 = by[0]
        R.eq("multicast", o.is_multicast, 224 <= n1 <= 239, a)
        R.eq("reserved", o.is_reserved, n1 >= 240, a)
        R.eq("private10", o.is_private or n1 != 10, True, a)
        R.eq("regex", __import__("re").search(IPv4Obj.get_regex(), a).group("addr"), a)
        R.outcome(ip)
    elif case["k"] == "str":
        a = ".".join(case["o"])
        ok = all(x.isdigit() and int(x) < 256 and str(int(x)) == x for x in case["o"])
        for ms in MASKS:
            mok, p = parse_mask(ms)
            s = a + ms
            try:
                o = IPv4Obj(s)
            except ValueError:
                R.true("refused", not (ok and mok), repr(s))
                R.outcome(("refused", ms))
            else:
                R.true("accepted", ok and mok, f"{s!r} became {o!r}")
                numbers(R, o, int.from_bytes(bytes(int(x) for x in case["o"]), "big"), p, repr(s))
                R.outcome(("accepted", ms))
            R.state(s)
    elif case["k"] == "types":
        for v in (None,):
            o = IPv4Obj(v)
            R.true("empty", o.empty and o.prefixlen is None and o == IPv4Obj() and not (o != IPv4Obj()) and hash(o) == hash(IPv4Obj()), repr(o))
            R.true("empty_ne", o != IPv4Obj("1.1.1.1") and IPv4Obj("1.1.1.1") != o, repr(o))
        for v in (1.5, [], b"1.1.1.1", -1, 2**32, "", "dhcp", " "):
            try:
                o = IPv4Obj(v)
            except (ValueError, RequirementFailure):
                R.step()
            else:
                R.fail("accepted", f"{v!r} became {o!r}")
            R.state(repr(v))
    else:
        o = IPv4Obj(case["s"])
        a, p = case["s"].split("/")
        ip, p = int.from_bytes(bytes(int(x) for x in a.split(".")), "big"), int(p)
        for op in case["ops"]:
            w = f"{case['s']} {case['ops']} at {op}:"
            k = op[0]
            prev = o
            try:
                if k == "len":
                    setattr(o, op[1], op[2])
                elif k == "off":
                    o.network_offset = op[1]
                elif k == "add":
                    o = o + op[1]
                elif k == "sub":
                    o = o - op[1]
                else:
                    o = IPv4Obj(o)
                raised = False
            except (ValueError, RequirementFailure):
                raised = True
            net = ip & mask_of(p)
            nip, np_ = ip, p
            if k == "len":
                bad = not 0 <= op[2] <= 32
                np_ = op[2]
            elif k == "off":
                bad = not 0 <= op[1] <= FULL ^ mask_of(p)
                nip = net + op[1]
            elif k in ("add", "sub"):
                nip = ip + op[1] if k == "add" else ip - op[1]
                bad = not 0 <= nip <= FULL
            else:
                bad = False
            R.eq("raises", raised, bad, w)
            if k in ("add", "sub", "copy"):
                numbers(R, prev, ip, p, f"{w} the original")
            if not bad:
                ip, p = nip, np_
            numbers(R, o, ip, p, w)
            R.state((ip, p))
        R.outcome((ip, p))
    R.trace()
