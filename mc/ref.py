"""Boring reference model of an IOS-style configuration: a list of lines plus a parent map."""
import itertools


class Line:
    __slots__ = ("i", "text", "indent", "comment", "blank", "parent", "kids")

    def __init__(self, i, text, comment="!"):
        self.i = i
        self.text = text.rstrip()
        body = self.text.lstrip()
        self.indent = len(self.text) - len(body)
        self.blank = body == ""
        self.comment = (not self.blank) and body[0] in comment
        self.parent = None
        self.kids = []

    @property
    def config(self):
        return not self.blank and not self.comment


def keep(lines, ignore_blank=True):
    if ignore_blank:
        return [x for x in lines if x.strip() != ""]
    return list(lines)


def tree(lines, comment="!", ignore_blank=True):
    """Parent of a configuration line: the nearest preceding configuration line that is less indented.
    (Comment lines: parent left open by the model -- see allowed_comment_parent.)"""
    out = [Line(i, t, comment) for i, t in enumerate(keep(lines, ignore_blank))]
    for n in out:
        if not n.config or n.indent == 0:
            continue
        for j in range(n.i - 1, -1, -1):
            if out[j].config and out[j].indent < n.indent:
                n.parent = out[j]
                out[j].kids.append(n)
                break
    return out


def nearest_less_indented(out, n):
    for j in range(n.i - 1, -1, -1):
        if out[j].config and out[j].indent < n.indent:
            return out[j]
    return None


def descendants(n):
    r = []
    for k in n.kids:
        r.append(k)
        r.extend(descendants(k))
    return sorted(r, key=lambda x: x.i)


def ancestors(n):
    r = []
    p = n.parent
    while p is not None:
        r.append(p)
        p = p.parent
    return r[::-1]


def impl_tree(objs):
    """(text, linenum, parent position or None, [child positions]) for the implementation's list of lines.
    Positions are found by object identity, so equality/hash of line objects is not trusted."""
    objs = list(objs)
    pos = {id(o): i for i, o in enumerate(objs)}
    rows = []
    for i, o in enumerate(objs):
        p = o.parent
        rows.append((o.text, o.linenum, None if p is o else pos.get(id(p), "foreign"),
                     [pos.get(id(c), "foreign") for c in o.children]))
    return rows


def seqs(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)
