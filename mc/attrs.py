"""Reference models of configuration sections: features -> lines, and features -> the value of every attribute.

A Table describes one kind of section (e.g. an IOS interface) by

    headers   list of dicts; h["text"] is the line which opens the section, h["pre"] features it presets, the rest is
              for the reference
    features  {name: [value, ...]}; a section has each feature at most once, with one of its values
    lines     (name, value) -> the configuration lines which give the feature that value
    attrs     {attribute: reference}; reference(h, ch) is the value the attribute must have in a section with header h
              and the chosen features ch ({name: value}); (getter, reference) for an observation that is no attribute
    wide      {name: [value, ...]} more values of a feature, explored alone: every number of digits, every kind of name
    noise     [[line, ...], ...] lines which mean nothing to any attribute
    other     a section header for the neighbours

The neighbours, before and after, hold every feature with another value than the section under test, so anything that
leaks from them is seen.
"""
SYN_ARGS = {"factory": True}


def canon(v):
    n = type(v).__name__
    if n in ("IPv4Obj", "IPv6Obj"):
        return None if v.empty else f"{v.ip}/{v.prefixlen}"
    if isinstance(v, (set, frozenset)):
        return sorted(v)
    if isinstance(v, (tuple, list)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()}
    if isinstance(v, bool) or v is None or isinstance(v, (int, float, str)):
        return v
    return str(v)


def same(got, want):
    """Equal and of the same kind: True is not 1 for the reader of an attribute."""
    if isinstance(got, bool) != isinstance(want, bool):
        return False
    if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)):
        return len(got) == len(want) and all(same(a, b) for a, b in zip(got, want))
    return got == want


class Table:
    syntax = "ios"
    extra = {}
    indent = 1
    wide = {}

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def value(self, name, i):
        """Value i of a feature; those beyond `features` come from `wide`, which only the shard of that name explores."""
        n = len(self.features[name])
        return self.features[name][i] if i < n else self.wide[name][i - n]

    # -- construction ---------------------------------------------------------------------------------------------
    def section(self, h, order, noise=()):
        out = [h["text"]]
        for name, i in order:
            out += self.lines(name, self.value(name, i))
        for k in noise:
            out += self.noise[k]
        return out

    def contrary(self, order):
        used = dict(order)
        res = []
        for name, vals in self.features.items():
            if name in used and len(vals) > 1:
                res.append([name, (used[name] + 1) % len(vals)])
            elif name not in used:
                res.append([name, 0])
        return res

    def full(self, case):
        """The features of the case with those the header presets (h["pre"])."""
        used = {n for n, _ in case["f"]}
        pre = [x for x in self.headers[case["h"]].get("pre", []) if x[0] not in used]
        if not pre:
            return case
        out = dict(case, f=pre + list(case["f"]))
        if "at" in case:
            out["at"] = case["at"] + len(pre)
        return out

    def config(self, case):
        h = self.headers[case["h"]]
        body = [h["text"]]
        rest = [list(x) for x in case["f"]]
        tgt = []
        at = case.get("at", len(rest))
        for j, (name, i) in enumerate(rest):
            if j == at:
                for k in case.get("noise", ()):
                    tgt += self.noise[k]
            tgt += self.lines(name, self.value(name, i))
        if at >= len(rest):
            for k in case.get("noise", ()):
                tgt += self.noise[k]
        if "unit" in case:
            lead = len(h["text"]) - len(h["text"].lstrip())
            tgt = [" " * (lead + (len(ln) - len(ln.lstrip()) - lead) // self.indent * case["unit"]) + ln.lstrip() for ln in tgt]
        body += tgt
        if not case.get("nb"):
            return body, 0
        o = self.contrary(case["f"])
        pre = self.section(self.other[0], o)
        post = self.section(self.other[1], o)
        return ["hostname h", "!"] + pre + ["!"] + body + ["!"] + post + ["!"], 2 + len(pre) + 1

    # -- observation ----------------------------------------------------------------------------------------------
    def observe(self, obj, R, h, ch, what, only=None):
        for a, ref in self.attrs.items():
            if only is not None and a not in only:
                continue
            want = (ref[1] if isinstance(ref, tuple) else ref)(h, ch)
            if want is SKIP:
                continue
            got = canon(ref[0](obj) if isinstance(ref, tuple) else getattr(obj, a))
            R.step()
            if not same(got, canon(want)):
                R.fail(a, f"{what}: {a} is {got!r} and should be {want!r}")
            R.outcome((a, repr(got)))

    def parse(self, lines):
        from ciscoconfparse import CiscoConfParse

        return CiscoConfParse(lines, syntax=self.syntax, factory=True, **self.extra)

    def check(self, case, R, only=None):
        case = self.full(case)
        lines, n = self.config(case)
        h = self.headers[case["h"]]
        ch = {name: self.value(name, i) for name, i in case["f"]}
        R.state("\n".join(lines))
        p = self.parse(lines)
        obj = p.objs[n]
        if obj.text != lines[n]:
            R.fail("section", f"{lines}: line {n} is {obj.text!r}")
        mode = case.get("mode", "")
        self.observe(obj, R, h, ch, lines if len(lines) < 40 else lines[n:n + 12], only)
        if case.get("nb") == 2:
            o = {name: self.features[name][i] for name, i in self.contrary(case["f"])}
            for obj, hh in ((p.objs[2], self.other[0]), (p.find_objects("^" + self.other[1]["text"] + "$")[0], self.other[1])):
                self.observe(obj, R, hh, o, f"neighbour {obj.text} of {lines[n:n + 12]}", only)
        if mode == "edit":
            self.edits(p, obj, case, R, only)
        R.trace()

    def edits(self, p, obj, case, R, only):
        """The section changes under the reader: each feature is removed, put back at the end, and removed again."""
        h = self.headers[case["h"]]
        ch = {name: self.value(name, i) for name, i in case["f"]}
        where = "^" + _esc(h["text"]) + "$"
        for name, i in list(case["f"]):
            val = ch.pop(name)
            for rnd in range(2):
                for ln in self.lines(name, val):
                    kid = [k for k in p.find_objects(where)[0].all_children if k.text == ln]
                    if not kid and len(ln) - len(ln.lstrip()) > self.indent:
                        continue  # went with its parent
                    if not kid:
                        R.fail("edit", f"{case}: no line {ln!r}")
                    kid[0].delete()
                    p.commit()
                obj = p.find_objects(where)[0]
                self.observe(obj, R, h, ch, f"{h['text']} after the removal of {self.lines(name, val)}", only)
                if rnd == 0:
                    for ln in self.lines(name, val):
                        obj = p.find_objects(where)[0]
                        obj.append_to_family(ln)
                        p.commit()
                    obj = p.find_objects(where)[0]
                    ch[name] = val
                    self.observe(obj, R, h, ch, f"{h['text']} after appending {self.lines(name, val)}", only)
                    del ch[name]


def _esc(s):
    import re

    return re.escape(s)


class _Skip:
    pass


SKIP = _Skip()


# -- the case spaces -----------------------------------------------------------------------------------------------
def singles(t):
    """Every header with nothing, and every header with every value of every feature; with and without neighbours."""
    for hi in range(len(t.headers)):
        for nb in (0, 2):
            yield {"h": hi, "f": [], "nb": nb}
        for name, vals in t.features.items():
            for i in range(len(vals)):
                yield {"h": hi, "f": [[name, i]], "nb": 0}
                if hi == 0:  # the same lines indented by another number of blanks
                    for unit in (1, 2, 3, 7):
                        if unit != t.indent:
                            yield {"h": hi, "f": [[name, i]], "nb": 0, "unit": unit}


WORDS = ["a", "0", "9Z", "no", "Cust-1.b:2_x/3", "IN+OUT", "A@b(c)", "n$", "^n", "[x]", "a*b", "a|b", "{x}", "\\d", "a,b", "'q'", '"q"', "vrf", "in", "out", "x" * 32, "\u00e9", "a!b", "#x", "%s", "a=b", "<x>", "~", "`"]
CHARS = [chr(n) for n in range(33, 127)]
TEXTS = [t.replace("?", c) for c in CHARS for t in ("?", "x?", "?x", "x ?", "? x", "xx?y")]  # every printable character at every place of a text
WORDS += [w for c in CHARS for w in (f"x{c}", f"{c}x", f"x{c}y") if w not in WORDS]
PLAIN = ["a", "0", "9Z", "Cust-1.b:2_x/3", "A_B", "x" * 32, "Z-z", "1.2", "no-x"]


def numbers(lo, hi):
    """The ends of lo..hi, the ends of every number of decimal digits and of every number of bits in between."""
    s = {lo, lo + 1, hi - 1, hi}
    for k in range(1, 11):
        s |= {10 ** k - 1, 10 ** k, 10 ** k + 1, int("1234567890"[:k]), int("9081726354"[:k]), int("1" * k)}
    for k in range(1, 33):
        s |= {2 ** k - 1, 2 ** k}
    return sorted(x for x in s if lo <= x <= hi)


def wides(t, heads):
    """Every further value of a feature, alone and between neighbours which have another value."""
    for hi in heads:
        for name, vals in t.wide.items():
            n = len(t.features[name])
            for i in range(len(vals)):
                yield {"h": hi, "f": [[name, n + i]], "nb": 0}
                yield {"h": hi, "f": [[name, n + i]], "nb": 1}


def neighbours(t, heads):
    for hi in heads:
        for name, vals in t.features.items():
            for i in range(len(vals)):
                yield {"h": hi, "f": [[name, i]], "nb": 2}


def pairs(t, heads, part, parts, nb=0):
    """Every ordered pair of values of two different features."""
    allv = [(n, i) for n, v in t.features.items() for i in range(len(v))]
    for k, (n, i) in enumerate(allv):
        if k % parts != part:
            continue
        for m, j in allv:
            if m != n:
                for hi in heads:
                    yield {"h": hi, "f": [[n, i], [m, j]], "nb": nb}


def noisy(t, heads, part=0, parts=1):
    """Every noise line alone, and before and after every value of every feature."""
    for hi in heads:
        for k in range(part, len(t.noise), parts):
            yield {"h": hi, "f": [], "nb": 0, "noise": [k]}
            for name, vals in t.features.items():
                for i in range(len(vals)):
                    for at in (0, 1):
                        yield {"h": hi, "f": [[name, i]], "nb": 0, "noise": [k], "at": at}


def clusters(t, heads, groups, size):
    """Every ordered choice of `size` features of a group with every value."""
    import itertools

    for g in groups:
        for names in itertools.permutations(g, size):
            for idx in itertools.product(*[range(len(t.features[n])) for n in names]):
                for hi in heads:
                    yield {"h": hi, "f": [[n, i] for n, i in zip(names, idx)], "nb": 0}


def histories(t, heads):
    for hi in heads:
        for name, vals in t.features.items():
            for i in range(len(vals)):
                yield {"h": hi, "f": [[name, i]], "nb": 0, "mode": "edit"}
