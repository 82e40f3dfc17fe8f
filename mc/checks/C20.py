"""IP objects as sets and as an order: containment is set inclusion, comparison is one total order agreeing with equality and hashing, collapsing keeps the covered addresses."""
import itertools

ID = "C20"
# (family, base address, offsets used, prefix lengths)
U4 = {"quick": [("10.0.0.240", range(0, 16), (0, 24, 27, 28, 29, 30, 31, 32)), ("0.0.0.0", (0, 1, 2, 3), (0, 1, 29, 30, 31, 32)), ("255.255.255.252", (0, 1, 2, 3), (0, 1, 29, 30, 31, 32))]}
U4["thorough"] = [("10.0.0.224", range(0, 32), (0, 8, 24, 26, 27, 28, 29, 30, 31, 32)), ("0.0.0.0", range(8), (0, 1, 28, 29, 30, 31, 32)), ("255.255.255.248", range(8), (0, 1, 28, 29, 30, 31, 32))]
U6 = {"quick": [("2001:db8::fff0", range(0, 16), (0, 64, 112, 124, 125, 126, 127, 128)), ("::", (0, 1, 2, 3), (0, 1, 125, 126, 127, 128)),
                ("ffff:ffff:ffff:ffff:ffff:ffff:ffff:fffc", (0, 1, 2, 3), (0, 1, 125, 126, 127, 128))]}
U6["thorough"] = [("2001:db8::ffe0", range(0, 32), (0, 8, 64, 112, 122, 123, 124, 125, 126, 127, 128)), ("::", range(8), (0, 1, 124, 125, 126, 127, 128)),
                  ("ffff:ffff:ffff:ffff:ffff:ffff:ffff:fff8", range(8), (0, 1, 124, 125, 126, 127, 128))]
N4 = [("10.0.0.0", k, p) for p in (29, 30, 31, 32) for k in range(0, 8, 1 << (32 - p))]
N6 = [("2001:db8::", k, p) for p in (125, 126, 127, 128) for k in range(0, 8, 1 << (128 - p))]
BOUNDS = {
    "quick": "every ordered pair of 176 IPv4 and of 176 IPv6 interfaces (equality, hash, order, containment) and every cross-family pair of a sub-universe; every sorted/longest-match list of up to 3 of "
             "15 networks; collapse_addresses() over every subset of up to 5 of the 15 networks of an 8-address block; ip_factory() over spellings x modes x stdlib",
    "thorough": "360 and 380 interfaces; lists of up to 4; subsets of up to 7",
}
ASSUMPTIONS = ["ordering of an IPv4 object against an IPv6 object is not specified"]


def universe(fam, tier):
    import ipaddress
    out = []
    cls = ipaddress.IPv4Address if fam == 4 else ipaddress.IPv6Address
    for base, offs, pls in (U4 if fam == 4 else U6)[tier]:
        for k in offs:
            for p in pls:
                out.append((int(cls(base)) + k, p))
    return sorted(set(out))


def shards(tier):
    out = []
    for fam in (4, 6):
        u = universe(fam, tier)
        for i in range(0, len(u), 8):
            out.append({"k": "pairs", "f": fam, "i": i})
        n = N4 if fam == 4 else N6
        out += [{"k": "lists", "f": fam, "first": i} for i in range(len(n))]
        out += [{"k": "collapse", "f": fam, "first": i} for i in range(len(n))]
    out += [{"k": "cross"}, {"k": "factory"}]
    return out


FACT = ["1.1.1.1", "1.1.1.1/32", "1.1.1.1/24", "1.1.1.0/24", "1.1.1.1/255.255.255.0", "0.0.0.0/0", "1.1.1.1/33", "1.1.1", "256.1.1.1", "", "abc", "2001:db8::1", "2001:db8::1/128", "2001:db8::1/64", "::/0",
        "::1/129", "1::2::3", ":::", "::ffff:1.2.3.4", "fe80::1/10"]


def cases(shard, tier):
    fam = shard.get("f")
    if shard["k"] == "pairs":
        u = universe(fam, tier)
        for a in u[shard["i"]:shard["i"] + 8]:
            for b in u:
                yield {"k": "pair", "f": fam, "a": list(map(str, a)), "b": list(map(str, b))}
    elif shard["k"] == "cross":
        for a in universe(4, "quick")[::5]:
            for b in ((a[0], a[1]), (a[0] + 1, a[1]), (a[0], 128), (0xffff << 32 | a[0], a[1]), (0xffff << 32 | a[0], 96 + a[1])):
                yield {"k": "cross", "a": list(map(str, a)), "b": list(map(str, b))}
    elif shard["k"] == "factory":
        for v in FACT + [5, 2**32 - 1, 2**32, 2**128, -1]:
            for mode in ("auto_detect", "ipv4", "ipv6"):
                for std in (False, True):
                    yield {"k": "factory", "v": v if isinstance(v, str) else {"int": str(v)}, "mode": mode, "std": std}
    else:
        n = len(N4)
        if shard["k"] == "lists":
            for ln in range(3 if tier == "quick" else 4):
                for rest in itertools.product(range(n), repeat=ln):
                    yield {"k": "list", "f": fam, "n": [shard["first"]] + list(rest)}
        else:
            for ln in range(5 if tier == "quick" else 7):
                for rest in itertools.combinations(range(shard["first"] + 1, n), ln):
                    yield {"k": "collapse", "f": fam, "n": [shard["first"]] + list(rest)}


def text(fam, ip, p):
    import ipaddress
    return f"{(ipaddress.IPv4Address if fam == 4 else ipaddress.IPv6Address)(ip)}/{p}"


def order_key(fam, ip, p):
    w = 32 if fam == 4 else 128
    net = ip >> (w - p) << (w - p)
    return (net, p, ip)


def raises(fn):
    try:
        fn()
    except Exception as e:
        return type(e).__name__
    return None


def check(case, R):
    from ciscoconfparse.ccp_util import IPv4Obj, IPv6Obj, collapse_addresses, ip_factory
    import ipaddress
    R.state(repr(case))
    k = case["k"]
    fam = case.get("f")
    cls = IPv4Obj if fam == 4 else IPv6Obj
    width = 32 if fam == 4 else 128
    if k == "pair":
        (a, pa), (b, pb) = [(int(x), int(y)) for x, y in (case["a"], case["b"])]
        ta, tb = text(fam, a, pa), text(fam, b, pb)
        x, y = cls(ta), cls(tb)
        w = f"{ta} and {tb}"
        same = (a, pa) == (b, pb)
        ka, kb = order_key(fam, a, pa), order_key(fam, b, pb)
        R.eq("order", (x == y, x != y, x < y, x > y), (same, not same, ka < kb, ka > kb), w)
        if same:
            R.eq("hash", (hash(x), len({x, y})), (hash(y), 1), w)
        else:
            R.eq("set", len({x, y}), 2, w)
        la, lb = a >> (width - pa) << (width - pa), b >> (width - pb) << (width - pb)
        ha, hb = la + (1 << (width - pa)) - 1, lb + (1 << (width - pb)) - 1
        R.eq("contains", y in x, la <= lb and hb <= ha, f"{tb} in {ta}")
        R.outcome((ka < kb, y in x, same))
    elif k == "cross":
        (a, pa), (b, pb) = [(int(x), int(y)) for x, y in (case["a"], case["b"])]
        if pb > 128 or b > 2**128 - 1:
            return
        x, y = IPv4Obj(text(4, a, pa)), IPv6Obj(text(6, b, pb))
        R.eq("families", (x == y, y == x, x != y, y != x, len({x, y})), (False, False, True, True, 2), f"{x} {y}")
        R.eq("families in", (y in x, x in y), (False, False), f"{x} {y}: one contains the other")
        R.outcome((pa, pb))
    elif k == "list":
        base = int((ipaddress.IPv4Address if fam == 4 else ipaddress.IPv6Address)((N4 if fam == 4 else N6)[0][0]))
        nets = [(base + (N4 if fam == 4 else N6)[i][1], (N4 if fam == 4 else N6)[i][2]) for i in case["n"]]
        objs = [cls(text(fam, *n)) for n in nets]
        for rev in (False, True):
            got = [str(o.as_cidr_addr) for o in sorted(objs, reverse=rev)]
            R.eq("sorted", got, [text(fam, *n) for n in sorted(nets, key=lambda n: order_key(fam, *n), reverse=rev)], f"{case['n']} reverse={rev}")
        # the documented longest-match idiom
        for off in range(8):
            addr = cls(text(fam, base + off, width))
            match = [n for n in nets if (base + off) >> (width - n[1]) == n[0] >> (width - n[1])]
            got = next((str(r.as_cidr_addr) for r in sorted(objs, reverse=True) if addr in r), None)
            want = text(fam, *max(match, key=lambda n: n[1])) if match else None
            R.eq("longest_match", got, want, f"{[text(fam, *n) for n in nets]} address +{off}")
        R.outcome(tuple(sorted(case["n"])))
    elif k == "collapse":
        tbl = N4 if fam == 4 else N6
        base = int((ipaddress.IPv4Address if fam == 4 else ipaddress.IPv6Address)(tbl[0][0]))
        nets = [(base + tbl[i][1], tbl[i][2]) for i in case["n"]]
        cover = set()
        for ip, p in nets:
            cover |= set(range(ip, ip + (1 << (width - p))))
        stdc = ipaddress.IPv4Network if fam == 4 else ipaddress.IPv6Network
        for order in (nets, nets[::-1]):
            for mk in (cls, stdc):
                got = list(collapse_addresses([mk(text(fam, *n)) for n in order]))
                R.true("type", all(isinstance(g, stdc) for g in got), repr(got))
                c = [x for g in got for x in range(int(g.network_address), int(g.broadcast_address) + 1)]
                R.eq("cover", sorted(c), sorted(cover), f"{case['n']}: {got}")
                blocks = {(int(g.network_address), g.prefixlen) for g in got}
                # minimal: no two halves of one block, none covering another (the cover test has no duplicates)
                R.true("minimal", not any((ip ^ (1 << (width - p)), p) in blocks for ip, p in blocks), f"{case['n']}: {got}")
        R.outcome(tuple(sorted(cover)))
    else:
        v = case["v"] if isinstance(case["v"], str) else int(case["v"]["int"])
        mode, std = case["mode"], case["std"]

        def model():
            use = mode
            if mode == "auto_detect":
                if isinstance(v, int):
                    return "error"
                use = "ipv6" if ":" in v else "ipv4"
            try:
                i = (ipaddress.IPv4Interface if use == "ipv4" else ipaddress.IPv6Interface)(v)
            except ValueError:
                return "error"
            w = 32 if use == "ipv4" else 128
            p = i.network.prefixlen
            if not std:
                return (("IPv4Obj" if use == "ipv4" else "IPv6Obj"), int(i.ip), p)
            if p == w:
                return (("IPv4Address" if use == "ipv4" else "IPv6Address"), int(i.ip), p)
            return (("IPv4Network" if use == "ipv4" else "IPv6Network"), int(i.network.network_address), p)
        try:
            o = ip_factory(v, stdlib=std, mode=mode)
        except (ValueError, NotImplementedError):
            got = "error"
        else:
            n = type(o).__name__
            got = (n, int(o.network_address) if n.endswith("Network") else int(o) if n.endswith("Address") else o.as_decimal, o.prefixlen if hasattr(o, "prefixlen") else o.max_prefixlen)
        R.eq("factory", got, model(), f"ip_factory({v!r}, mode={mode}, stdlib={std})")
        R.outcome(got)
    R.trace()
