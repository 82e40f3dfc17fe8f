"""Reference model of the configuration-editing API: a plain list of lines.  Every line remembers the family it had
at the last commit; that is what the family-relative operations (delete with children, append to the family, replace
in children) are specified against."""
import re

from mc import ref

ERR = "error"


class N:
    __slots__ = ("text", "kids")

    def __init__(self, text):
        self.text = text
        self.kids = []

    def desc(self):
        out = []
        for k in self.kids:
            out.append(k)
            out.extend(k.desc())
        return out


class Model:
    def __init__(self, texts, comment="!"):
        self.comment = comment
        self.lines = [N(t) for t in texts]
        self.commit()

    def texts(self):
        return [x.text for x in self.lines]

    def commit(self):
        texts = [x.text.rstrip() for x in self.lines]
        new = [N(t) for t in texts if t != ""]
        for r in ref.tree([x.text for x in new], self.comment):
            new[r.i].kids = [new[k.i] for k in r.kids]
        self.lines = new

    def find(self, rx, exact=False, ws=False):
        if ws:
            rx = r"\s+".join(re.split(r"\s+", rx))
        c = re.compile(f"^(?:{rx})$" if exact else rx)
        return [x for x in self.lines if c.search(x.text)]

    def at(self, node):
        for i, x in enumerate(self.lines):
            if x is node:
                return i
        return None

    def ins(self, node, text, off):
        self.lines.insert(self.at(node) + off, N(text.rstrip()))

    def delete(self, node, recurse=True):
        if self.at(node) is None:
            return
        dead = [node] + (node.desc() if recurse else [])
        self.lines = [x for x in self.lines if not any(x is d for d in dead)]

    def append_family(self, node, text):
        live = [x for x in node.desc() if self.at(x) is not None]
        last = max(live, key=self.at) if live else node
        self.ins(last, text, 1)

    def sub(self, node, a, b, ignore=None):
        if ignore and re.search(ignore, node.text):
            return node.text
        new = re.sub(a, b, node.text)
        if new.strip() == "":  # an emptied line is deleted, with its family
            self.delete(node)
            return None
        node.text = new
        return node.text


def indent(t):
    return len(t) - len(t.lstrip())


def apply_model(m, op):
    """Apply one operation to the model; returns the value the call must return ("*" = not specified)."""
    k, a = op[0], op[1:]
    if k == "commit":
        m.commit()
        return "*"
    if k in ("ib", "ia"):  # parser level insert_before / insert_after
        exist, new, o = a
        hits = m.find(exist, o.get("exactmatch", False), o.get("ignore_ws", False))
        if new.strip() == "":
            return ERR if hits else []
        if o.get("new_val_indent", -1) >= 0:
            new = " " * o["new_val_indent"] + new.lstrip()
        ret = [x.text for x in hits]
        for x in hits:
            m.ins(x, new, 0 if k == "ib" else 1)
        if o.get("atomic"):
            m.commit()
        return ret
    if k == "iac":
        par, chi, new, o = a
        ex = o.get("excludespec")
        for p in m.find(par, o.get("exactmatch", False)):
            if ex and re.search(ex, p.text):
                continue
            for c in p.kids:
                if m.at(c) is None or (ex and re.search(ex, c.text)):
                    continue
                if re.search(chi, c.text):
                    m.ins(c, new, 1)
        if o.get("atomic"):
            m.commit()
        return "*"
    if k == "dl":
        for x in reversed(m.find(a[0], **a[1])) if not a[1] else reversed(m.find(a[0], a[1].get("exactmatch", False))):
            m.delete(x)
        return "*"
    if k == "append":
        m.lines.append(N(a[0]))
        m.commit()
        return a[0]
    if k == "prepend":
        m.lines.insert(0, N(a[0]))
        return a[0]
    if k == "rl":
        spec, new, o = a
        ex = o.get("excludespec")
        ret = [m.sub(x, spec, new) for x in m.find(spec, o.get("exactmatch", False)) if not (ex and re.search(ex, x.text))]
        if o.get("atomic"):
            m.commit()
        return ret
    if k in ("rc", "rac"):
        par, chi, new, o = a
        ex = o.get("excludespec")
        ret = []
        dead = False
        for p in m.find(par, o.get("exactmatch", False)):
            if ex and re.search(ex, p.text):
                continue
            for c in (p.kids if k == "rc" else sorted(p.desc(), key=lambda x: -1 if m.at(x) is None else m.at(x))):
                if ex and re.search(ex, c.text):
                    continue
                if re.search(chi, c.text):
                    dead = dead or m.at(c) is None
                    ret.append(m.sub(c, chi, new))
        if o.get("atomic"):
            m.commit()
        return "*" if dead else ret
    # line-level operations on the i-th line, or on each line that a search returned
    if k in ("at", "each"):
        sel, verb, args = a
        if k == "at":
            if sel >= len(m.lines):
                return None
            nodes = [m.lines[sel]]
        else:
            nodes = m.find(sel)
        ret = "*"
        for x in nodes:
            if verb == "delete":
                m.delete(x, args[0] if args else True)
                ret = True
            elif m.at(x) is None:
                continue  # an earlier step of this loop deleted it
            elif verb == "before":
                m.ins(x, args[0], 0)
            elif verb == "after":
                m.ins(x, args[0], 1)
            elif verb == "family":
                t, o = args[0], args[1]
                if o.get("auto_indent"):
                    t = " " * (indent(x.text) + o.get("auto_indent_width", 1)) + t.lstrip()
                elif o.get("indent", -1) > 0:
                    t = " " * (indent(x.text) + o["indent"]) + t.lstrip()
                m.append_family(x, t)
            elif verb in ("sub", "replace"):
                ret = m.sub(x, *args)
            elif verb == "text":
                x.text = args[0]
            elif verb == "delkids":
                hit = [c for c in x.kids if re.search(args[0], c.text)]
                for c in hit:
                    m.delete(c)
        return ret
    if k in ("lib", "lia"):  # list-level insert by regex
        for x in m.find(a[0]):
            m.ins(x, a[1], 0 if k == "lib" else 1)
        if a[2]:
            m.commit()
        return "*"
    if k == "lins":
        m.lines.insert(a[0], N(a[1]))
        return "*"
    if k == "ldel":
        if a[0] < len(m.lines):
            del m.lines[a[0]]
            m.commit()
        return "*"
    raise AssertionError(op)


def apply_impl(p, op):
    k, a = op[0], op[1:]
    if k == "commit":
        return p.commit()
    if k in ("ib", "ia"):
        return (p.insert_before if k == "ib" else p.insert_after)(a[0], a[1], **a[2])
    if k == "iac":
        return p.insert_after_child(a[0], a[1], a[2], **a[3])
    if k == "dl":
        return p.delete_lines(a[0], **a[1])
    if k == "append":
        return p.append_line(a[0]).text
    if k == "prepend":
        return p.prepend_line(a[0]).text
    if k == "rl":
        return p.replace_lines(a[0], a[1], **a[2])
    if k == "rc":
        return p.replace_children(a[0], a[1], a[2], **a[3])
    if k == "rac":
        return p.replace_all_children(a[0], a[1], a[2], **a[3])
    if k in ("at", "each"):
        sel, verb, args = a
        if k == "at":
            if sel >= len(p.ConfigObjs):
                return None
            objs = [p.ConfigObjs[sel]]
        else:
            objs = p.find_objects(sel)
        ret = None
        for x in objs:
            if verb == "delete":
                ret = x.delete(*args)
            elif not any(y is x for y in p.ConfigObjs):
                continue
            elif verb == "before":
                x.insert_before(args[0])
            elif verb == "after":
                x.insert_after(args[0])
            elif verb == "family":
                x.append_to_family(args[0], **args[1])
            elif verb == "sub":
                ret = x.re_sub(*args)
            elif verb == "replace":
                ret = x.replace(*args)
            elif verb == "text":
                x.text = args[0]
            elif verb == "delkids":
                x.delete_children_matching(args[0])
        return ret
    if k == "lib":
        return p.ConfigObjs.insert_before(a[0], a[1], atomic=a[2])
    if k == "lia":
        return p.ConfigObjs.insert_after(a[0], a[1], atomic=a[2])
    if k == "lins":
        return p.ConfigObjs.insert(a[0], a[1])
    if k == "ldel":
        if a[0] < len(p.ConfigObjs):
            del p.ConfigObjs[a[0]]
        return None
    raise AssertionError(op)


# ---------------------------------------------------------------------------------------------------------------
# bounded operation alphabets.  W: regex of a header, V: regex of a member, T/C: a new top-level / member line,
# X/Y: a text and its replacement
VOCAB = {
    "ab": dict(W="a", V="b", T="n", C=" n", X="b", Y="q"),
    "num": dict(W="a 1", V="a 10", T="a 1", C=" a 100", X="a", Y="e"),
    "intf": dict(W="interface Eth1", V="ip|shutdown", T="interface Eth3", C=" mtu 1500", X="Eth1", Y="Eth2"),
}
CONFIGS = [
    ("ab", ["a", " b", "  c", " b", "a"]),
    ("ab", ["a", " b", "!", "b", " c"]),
    ("ab", ["a", " a", " a", "a"]),
    ("num", ["a 1", " a 10", "b", " a 1"]),
    ("ab", ["a", "  b", " c", "   d", " b"]),
    ("ab", ["b"]),
    ("intf", ["interface Eth1", " ip address 1.1.1.1 255.255.255.0", " shutdown", "interface Eth10", " ip address 1.1.2.1 255.255.255.0"]),
]


def ops_full(v):
    d = VOCAB[v]
    W, V, T, C, X, Y = (d[k] for k in "WVTCXY")
    out = [["commit"]]
    for k in ("ib", "ia"):
        out += [[k, W, T, {}], [k, V, C, {}], [k, W, T, {"atomic": True}], [k, V, "z", {"new_val_indent": 1}], [k, W, "  z", {"new_val_indent": 0}],
                [k, W, T, {"exactmatch": True}], [k, V, C, {"ignore_ws": True, "atomic": True}], [k, "zzz", T, {}], [k, W, "  ", {}]]
    out += [["iac", W, V, C, {}], ["iac", W, V, C, {"atomic": True}], ["iac", W, V, "  y", {"excludespec": "c|1.1.2.1"}], ["iac", W, ".", C, {"exactmatch": True}]]
    out += [["dl", W, {}], ["dl", V, {}], ["dl", W, {"exactmatch": True}], ["dl", ".", {}]]
    out += [["append", T], ["append", C], ["prepend", T], ["prepend", C]]
    out += [["rl", X, Y, {}], ["rl", X, Y, {"atomic": True}], ["rl", X, Y, {"excludespec": V}], ["rl", W, Y, {"exactmatch": True}], ["rl", "^", " ", {"atomic": True}], ["rl", f"^{V}$", "", {}]]
    for k in ("rc", "rac"):
        out += [[k, W, V, Y, {}], [k, W, V, Y, {"atomic": True}], [k, W, ".$", Y, {"excludespec": V}]]
    for i in range(3):
        out += [["at", i, "delete", []], ["at", i, "delete", [False]], ["at", i, "before", [C]], ["at", i, "after", [T]], ["at", i, "family", [C, {}]],
                ["at", i, "sub", [r"^(\s*)\S", r"\1x"]]]
    out += [["at", 1, "family", ["f", {"indent": 2}]], ["at", 0, "family", ["  f", {"auto_indent": True}]], ["at", 1, "family", ["f", {"auto_indent": True, "auto_indent_width": 3}]],
            ["at", 1, "sub", ["^", " "]], ["at", 0, "replace", [X, Y, W]], ["at", 1, "sub", ["^.*$", ""]], ["at", 0, "text", [C]], ["at", 1, "text", ["! " + T]], ["at", 0, "delkids", [V]], ["at", 0, "delkids", ["."]]]
    out += [["each", W, "delete", []], ["each", V, "delete", [False]], ["each", W, "family", [C, {}]], ["each", W, "after", [C]], ["each", V, "before", [C]],
            ["each", W, "replace", [X, Y]], ["each", W, "delkids", [V]], ["each", V, "family", [" f", {"indent": 1}]]]
    for k in ("lib", "lia"):
        out += [[k, W, T, False], [k, V, C, True]]
    out += [["lins", 0, C], ["lins", 1, C], ["lins", 99, T], ["ldel", 0], ["ldel", 1]]
    out += [["at", 1, "sub", [r"^\s*", "\t"]], ["at", 0, "after", ["\t" + C.strip()]]]
    return out


def ops_core(v):
    d = VOCAB[v]
    W, V, T, C, X, Y = (d[k] for k in "WVTCXY")
    return [["commit"], ["ib", W, T, {}], ["ia", V, C, {}], ["ia", W, C, {"atomic": True}], ["iac", W, V, C, {}], ["dl", V, {}], ["append", C], ["prepend", T],
            ["rl", X, Y, {}], ["rac", W, V, Y, {"atomic": True}], ["at", 0, "delete", []], ["at", 1, "delete", [False]], ["at", 1, "delete", []], ["at", 0, "family", [C, {}]],
            ["each", W, "family", ["f", {"auto_indent": True}]], ["at", 1, "sub", ["^", " "]], ["at", 1, "before", [T]], ["at", 0, "delkids", [V]], ["lins", 1, C], ["ldel", 0]]


EXTRA = [
    ("ab", ["banner motd ^", " a", "b", "", "  c", "^", "a", " b"]),
    ("ab", ["macro name a", "b", " b", "@", "a", " b"]),
    ("ab", ["a", " !b", "  b", "!a", " c", "  ! b"]),
    ("ab", ["a", " b", "", "  c", "a"]),
]
ALL = CONFIGS + EXTRA
LARGE = [
    ("intf", [x for i in range(20) for x in (f"interface Eth{i}", f" ip address 1.1.{i}.1 255.255.255.0", " shutdown")]),
    ("ab", ["a"] + [" b", " a", "  b"] * 14 + ["b", " c"]),
    ("ab", [" " * i + "ab"[i % 2] for i in range(16)] + ["a", " b"]),
    ("num", [f"a {i}" for i in range(30)]),
]
TABLE = ALL + LARGE


def large(syntaxes=("ios",), factory=(False, True), depth=1):
    return shards(depth, 0, syntaxes, factory, configs=list(range(len(ALL), len(TABLE))))


def shards(full_depth, core_depth, syntaxes=("ios",), factory=(False, True), configs=None, core_factory=(False,)):
    out = []
    for syn in syntaxes:
        for ci in (configs or range(len(CONFIGS))):
            v = TABLE[ci][0]
            for fac in factory:
                out.append({"c": ci, "f": fac, "syn": syn, "a": "full", "first": None, "d": 0})
                for i in range(len(ops_full(v))):
                    out.append({"c": ci, "f": fac, "syn": syn, "a": "full", "first": i, "d": full_depth})
                if core_depth and fac in core_factory:
                    for i in range(len(ops_core(v))):
                        out.append({"c": ci, "f": fac, "syn": syn, "a": "core", "first": i, "d": core_depth})
    return out


def cases(sh):
    import itertools
    v, cfg = TABLE[sh["c"]]
    ops = ops_full(v) if sh["a"] == "full" else ops_core(v)
    base = {"lines": cfg, "factory": sh["f"], "syntax": sh["syn"]}
    if sh["first"] is None:
        yield {**base, "ops": []}
        return
    lo = 0 if sh["a"] == "full" else sh["d"] - 1  # the core alphabet is used only for its longest histories
    for n in range(lo, sh["d"]):
        for rest in itertools.product(ops, repeat=n):
            yield {**base, "ops": [ops[sh["first"]]] + list(rest)}
