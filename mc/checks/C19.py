"""IPv6Obj: every RFC 4291 spelling denotes one address and one prefix, every derived value is that of the pair, and every history of changes keeps it so."""
import itertools

ID = "C19"
FILL = {"quick": [[0x2001, 0xdb8, 0x14, 0x10, 1, 0x200, 0xdead, 0xbeef], [0xffff] * 8, [0, 0, 0, 0, 0, 0xffff, 0xc000, 0x201], [0x2002, 0xc000, 0x204, 0xa, 0xb, 0xc, 0xd, 0xe],
                  [0xfe80, 1, 2, 3, 4, 5, 6, 7], [0xff02, 0, 0, 0, 0, 0, 0, 1], [0x2001, 0, 0x4136, 0xe378, 0x8000, 0x63bf, 0x3fff, 0xfdd2]],
        }
FILL["thorough"] = FILL["quick"] + [[0xfec0, 7, 6, 5, 4, 3, 2, 1], [0x64, 0xff9b, 0x100, 0x1000, 0x10, 9, 0xa0, 0xf], [0xfc00, 0xa, 0xab, 0xabc, 0xabcd, 0xf0, 0xf00, 0xf000]]
TOK = ["1", ":", "::", "abCD", "0", "12345", "g", "1.2.3.4"]
MASKS = ["", "/64", "/0", "/128", "/129", "/-1", "/", " 64", "/64x", "/6 4", " ", "/64/64"]
STARTS = ["2001:db8::5/64", "::/0", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff/128", "fe80::ffff:ffff:ffff:fffe/64", "::ffff:192.0.2.1/127"]
OPS = ([["len", a, k] for a in ("prefixlen", "prefixlength", "masklen", "masklength") for k in (0, 64, 65, 127, 128)] + [["len", "prefixlen", k] for k in (126, 129, -1)]
       + [["off", k] for k in (0, 1, 2, 2**64 - 1, 2**64, -1)] + [["add", k] for k in (0, 1, 2**64, -1, 2**128)] + [["sub", k] for k in (0, 1, 2**64, -3, 2**128)] + [["copy"]])
BOUNDS = {
    "quick": "every zero pattern (256) of 7 filler addresses in every spelling (each :: position, case, leading zeros, embedded IPv4) x 3 prefix lengths and every derived value x 15 (129 for the unmasked pattern); every sequence of "
             "up to 6 of 8 tokens x 12 mask spellings accepted or refused; every history of up to 3 of 40 changes from 5 objects",
    "thorough": "10 filler addresses, all 129 prefix lengths, sequences of up to 7 tokens, histories of up to 4",
}
ASSUMPTIONS = ["scope identifiers (fe80::1%eth0) are not accepted", "classification flags are judged on /128 objects only"]
FULL = 2**128 - 1
PL = [0, 1, 8, 16, 31, 32, 33, 48, 63, 64, 65, 96, 126, 127, 128]


def shards(tier):
    out = [{"k": "val", "f": f, "hi": h} for f in range(len(FILL[tier])) for h in range(16)]
    out += [{"k": "str", "pre": [a, b], "n": (6 if tier == "quick" else 7) - 2} for a in TOK for b in TOK] + [{"k": "str", "pre": [a], "n": 0} for a in TOK]
    out += [{"k": "hist", "s": s, "first": i, "d": 3 if tier == "quick" else 4} for s in STARTS for i in range(len(OPS))]
    out.append({"k": "types"})
    return out


def cases(shard, tier):
    if shard["k"] == "val":
        for lo in range(16):
            z = shard["hi"] * 16 + lo
            yield {"k": "val", "h": [0 if z >> i & 1 else v for i, v in enumerate(FILL[tier][shard["f"]])], "all": z == 0 or tier != "quick"}
    elif shard["k"] == "str":
        for n in range(shard["n"] + 1):
            for rest in itertools.product(TOK, repeat=n):
                yield {"k": "str", "s": "".join(shard["pre"] + list(rest))}
    elif shard["k"] == "types":
        yield {"k": "types"}
    else:
        for n in range(shard["d"]):
            for rest in itertools.product(OPS, repeat=n):
                yield {"k": "hist", "s": shard["s"], "ops": [OPS[shard["first"]]] + list(rest)}


def parse(s):
    """RFC 4291 text to integer, or None."""
    def groups(t, tail):
        if t == "":
            return []
        out = []
        parts = t.split(":")
        for i, x in enumerate(parts):
            if "." in x:
                q = x.split(".")
                if not (tail and i == len(parts) - 1 and len(q) == 4 and all(y.isdigit() and int(y) < 256 and str(int(y)) == y for y in q)):
                    return None
                out += [int(q[0]) << 8 | int(q[1]), int(q[2]) << 8 | int(q[3])]
            elif 1 <= len(x) <= 4 and all(c in "0123456789abcdefABCDEF" for c in x):
                out.append(int(x, 16))
            else:
                return None
        return out
    if s.count("::") > 1 or ":::" in s or ":" not in s:
        return None
    if "::" in s:
        a, b = s.split("::")
        a, b = groups(a, False), groups(b, True)
        if a is None or b is None or len(a) + len(b) > 7:
            return None
        g = a + [0] * (8 - len(a) - len(b)) + b
    else:
        g = groups(s, True)
        if g is None or len(g) != 8:
            return None
    n = 0
    for x in g:
        n = n << 16 | x
    return n


def spellings(h):
    out = []
    for fmt in ("{:x}", "{:04x}", "{:X}"):
        g = [fmt.format(x) for x in h]
        tail = ".".join(str(x) for x in (h[6] >> 8, h[6] & 255, h[7] >> 8, h[7] & 255))
        out.append(":".join(g))
        out.append(":".join(g[:6] + [tail]))
        for i in range(8):
            for j in range(i + 1, 9):
                if any(h[i:j]):
                    break
                out.append(":".join(g[:i]) + "::" + ":".join(g[j:]))
                if j <= 6:
                    out.append(":".join(g[:i]) + "::" + ":".join(g[j:6] + [tail]))
    return out


def compress(n):
    h = [n >> 16 * (7 - i) & 0xffff for i in range(8)]
    best = (0, 0)
    i = 0
    while i < 8:
        j = i
        while j < 8 and h[j] == 0:
            j += 1
        if j - i > best[1] and j - i > 1:
            best = (i, j - i)
        i = max(j, i + 1)
    if best[1] == 0:
        return ":".join(f"{x:x}" for x in h)
    i, n = best
    return ":".join(f"{x:x}" for x in h[:i]) + "::" + ":".join(f"{x:x}" for x in h[i + n:])


def mask_of(p):
    return FULL << (128 - p) & FULL


def mapped(ip):
    return ip >> 32 == 0xffff


def numbers(R, o, ip, p, w):
    m = mask_of(p)
    net, last = ip & m, ip | (FULL ^ m)
    as_int = o.as_int() if callable(o.as_int) else o.as_int
    got = (o.as_decimal, as_int, int(o), o.prefixlen, o.prefixlength, o.masklen, o.masklength, o.as_decimal_network, o.as_decimal_network_maxint, o.network_offset)
    R.eq("numbers", got, (ip, ip, ip, p, p, p, p, net, last, ip - net), w)
    if mapped(ip):
        R.eq("repr", repr(o), f"<IPv6Obj ::ffff:{ip >> 24 & 255}.{ip >> 16 & 255}.{ip >> 8 & 255}.{ip & 255}/{p}>", w)
    else:
        R.eq("repr", repr(o), f"<IPv6Obj {compress(ip)}/{p}>", w)


def everything(R, o, ip, p, w):
    numbers(R, o, ip, p, w)
    m = mask_of(p)
    net, last = ip & m, ip | (FULL ^ m)
    hx = [format(ip >> 16 * (7 - i) & 0xffff, "04x") for i in range(8)]
    got = {"ip": int(o.ip), "ipv6": int(o.ipv6), "ip_object": int(o.ip_object), "exploded": o.exploded, "packed": o.packed, "netmask": int(o.netmask), "hostmask": int(o.hostmask),
           "inverse": int(o.inverse_netmask), "network": (int(o.network.network_address), o.network.prefixlen), "network_object": (int(o.network_object.network_address), o.network_object.prefixlen),
           "numhosts": o.numhosts, "hex": o.as_hex, "bt": o.as_binary_tuple, "ht": o.as_hex_tuple, "v": o.version, "max": o.max_int, "index": hex(o), "empty": o.empty, "mapped": o.is_ipv4_mapped}
    want = {"ip": ip, "ipv6": ip, "ip_object": ip, "exploded": ":".join(hx), "packed": ip.to_bytes(16, "big"), "netmask": m, "hostmask": FULL ^ m, "inverse": FULL ^ m, "network": (net, p),
            "network_object": (net, p), "numhosts": 1 if p == 128 else 2 if p == 127 else 2 ** (128 - p) - 2, "hex": hex(ip), "bt": tuple(format(int(x, 16), "016b") for x in hx), "ht": tuple(hx),
            "v": 6, "max": FULL, "index": hex(ip), "empty": False, "mapped": mapped(ip)}
    R.eq("derived", got, want, w)
    for what, s, n in (("as_cidr_addr", o.as_cidr_addr, ip), ("as_cidr_net", o.as_cidr_net, net), ("compressed", o.compressed, net)):
        R.eq(what, (parse(s.split("/")[0]), s.split("/")[1]), (n, str(p)), w)
        if not mapped(n):
            R.eq(what, s, f"{compress(n)}/{p}", w)
    R.eq("iterate", [int(x) for x in itertools.islice(iter(o), 3)], list(range(net, min(last, net + 2) + 1)), w)
    for a in ("broadcast", "as_decimal_broadcast"):
        try:
            getattr(o, a)
        except NotImplementedError:
            R.step()
        else:
            R.fail("broadcast", f"{w}: {a}")


def check(case, R):
    from ciscoconfparse.ccp_util import IPv6Obj
    from ciscoconfparse.errors import RequirementFailure
    if case["k"] == "val":
        h = case["h"]
        ip = 0
        for x in h:
            ip = ip << 16 | x
        a = ":".join(f"{x:x}" for x in h)
        for p in range(129) if case["all"] else PL:
            o = IPv6Obj(f"{a}/{p}")
            everything(R, o, ip, p, f"{a}/{p}")
            everything(R, IPv6Obj(o), ip, p, f"copy of {a}/{p}")
            R.state((ip, p))
            host = ip & (FULL ^ mask_of(p))
            try:
                o = IPv6Obj(f"{a}/{p}", strict=True)
            except ValueError:
                R.true("strict", host != 0, f"{a}/{p} refused in strict mode")
            else:
                R.true("strict", host == 0, f"{a}/{p} accepted in strict mode")
        for s in spellings(h):
            numbers(R, IPv6Obj(s), ip, 128, s)
            for p in PL if case["all"] else [0, 65, 128]:
                for sep in ("/", " "):
                    numbers(R, IPv6Obj(f"{s}{sep}{p}"), ip, p, f"{s}{sep}{p}")
            R.state(s)
        o = IPv6Obj(ip)
        everything(R, o, ip, 128, ip)
        R.eq("multicast", o.is_multicast, h[0] >> 8 == 0xff, a)
        R.eq("link_local", o.is_link_local, h[0] >> 6 == 0xfe80 >> 6, a)
        R.eq("site_local", o.is_site_local, h[0] >> 6 == 0xfec0 >> 6, a)
        R.eq("unspecified", o.is_unspecified, ip == 0, a)
        R.eq("unique_local", o.is_private or h[0] >> 9 != 0xfc00 >> 9, True, a)
        R.eq("6to4", None if o.sixtofour is None else int(o.sixtofour), (h[1] << 16 | h[2]) if h[0] == 0x2002 else None, a)
        t = o.teredo
        R.eq("teredo", None if t is None else (int(t[0]), int(t[1])), (h[2] << 16 | h[3], (h[6] << 16 | h[7]) ^ 0xffffffff) if (h[0], h[1]) == (0x2001, 0) else None, a)
        R.outcome(ip)
    elif case["k"] == "str":
        n = parse(case["s"])
        for ms in MASKS:
            s = case["s"] + ms
            mok, p = {"": (1, 128), " ": (1, 128), "/64": (1, 64), " 64": (1, 64), "/0": (1, 0), "/128": (1, 128)}.get(ms, (0, 0))
            try:
                o = IPv6Obj(s)
            except (ValueError, RequirementFailure, NotImplementedError):
                R.true("refused", n is None or not mok, repr(s))
            else:
                R.true("accepted", n is not None and mok, f"{s!r} became {o!r}")
                numbers(R, o, n, p, repr(s))
                R.state(s)
        R.outcome(n)
    elif case["k"] == "types":
        o = IPv6Obj()
        R.true("empty", o.empty and o.prefixlen is None and o == IPv6Obj() and not (o != IPv6Obj()) and hash(o) == hash(IPv6Obj()) and o in IPv6Obj(), repr(o))
        R.true("empty_ne", o != IPv6Obj("::1") and IPv6Obj("::1") != o and o != 5 and o not in IPv6Obj("::/0") and IPv6Obj("::1") not in o, repr(o))
        for v in (1.5, [], b"::1", -1, 2**128, "", "dhcp", " ", "1.1.1.1"):
            try:
                o = IPv6Obj(v)
            except (ValueError, RequirementFailure):
                R.step()
            else:
                R.fail("accepted", f"{v!r} became {o!r}")
            R.state(repr(v))
    else:
        o = IPv6Obj(case["s"])
        a, p = case["s"].split("/")
        ip, p = parse(a), int(p)
        for op in case["ops"]:
            w = f"{case['s']} {case['ops']} at {op}:"
            k = op[0]
            prev = o
            try:
                if k == "len":
                    setattr(o, op[1], op[2])
                elif k == "off":
                    o.network_offset = op[1]
                elif k == "add":
                    o = o + op[1]
                elif k == "sub":
                    o = o - op[1]
                else:
                    o = IPv6Obj(o)
                raised = False
            except (ValueError, RequirementFailure):
                raised = True
            net = ip & mask_of(p)
            nip, np_ = ip, p
            if k == "len":
                bad = not 0 <= op[2] <= 128
                np_ = op[2]
            elif k == "off":
                bad = not 0 <= op[1] <= FULL ^ mask_of(p)
                nip = net + op[1]
            elif k in ("add", "sub"):
                nip = ip + op[1] if k == "add" else ip - op[1]
                bad = not 0 <= nip <= FULL
            else:
                bad = False
            R.eq("raises", raised, bad, w)
            if k in ("add", "sub", "copy"):
                numbers(R, prev, ip, p, f"{w} the original")
            if not bad:
                ip, p = nip, np_
            numbers(R, o, ip, p, w)
            R.state((ip, p))
        R.outcome((ip, p))
    R.trace()
