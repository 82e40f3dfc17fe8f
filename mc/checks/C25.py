"""Type-7 passwords: decrypt() inverts the encryption for every salt, length and character."""
ID = "C25"
BOUNDS = {
    "quick": "every salt 0-52 x every length 1-60 x one text with all printable characters turning through all positions; every character x salt at the first position; hex case, both call forms",
    "thorough": "every salt x every length x every printable character at every position",
}
ASSUMPTIONS = ["the encryption is the published one: bytes xored with the 53-character key, starting at the salt, in hex after the two-digit salt"]
KEY = "dsfd;kfoA,.iyewrkldJKDHSUBsgvca69834ncxv9873254k;fg87"
CH = [chr(n) for n in range(32, 127)]


def encrypt(text, salt, upper=True):
    out = f"{salt:02d}"
    for i, c in enumerate(text):
        out += ("%02X" if upper else "%02x") % (ord(c) ^ ord(KEY[(salt + i) % 53]))
    return out


def shards(tier):
    return [{"salt": s} for s in range(53)]


def cases(shard, tier):
    s = shard["salt"]
    for c in CH:
        yield {"text": c, "salt": s, "upper": True, "form": "arg"}
    for n in range(1, 61):
        for k, up in ((0, True), (7, False), (31, True)):
            for form in ("arg", "init", "both"):
                yield {"text": "".join(CH[(k + n + i * 3) % 95] for i in range(n)), "salt": s, "upper": up, "form": form}
    if tier != "quick":
        for n in range(1, 61):
            for k in range(95):
                yield {"text": "".join(CH[(k + i) % 95] for i in range(n)), "salt": s, "upper": k % 2 == 0, "form": "arg"}


def check(case, R):
    from ciscoconfparse.ciscoconfparse import CiscoPassword
    ep = encrypt(case["text"], case["salt"], case["upper"])
    if case["form"] == "arg":
        got = CiscoPassword().decrypt(ep)
    elif case["form"] == "init":
        got = CiscoPassword(ep).decrypt()
    else:
        p = CiscoPassword("00FF")
        first = p.decrypt(ep)
        R.eq("given", p.decrypt("00FF"), p.decrypt(), "the argument wins")
        got = p.decrypt(ep=ep)
        R.eq("again", first, got, ep)
    R.state(ep)
    R.eq("text", got, case["text"], f"{ep}:")
    R.outcome(got)
    R.trace()
