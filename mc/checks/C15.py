"""The list of configuration lines behaves as a Python list under every history of list operations."""
import copy
import itertools

ID = "C15"
CFG = [["a", " b", "c"], ["a", "a"], [" x", "a", " b", "  c"]]
BOUNDS = {
    "quick": "3 configurations x every history of up to 3 of 42 list operations, the classifier on for depth 2",
    "thorough": "every history of up to 4 operations",
}
ASSUMPTIONS = ["del and insert by text make new line objects (documented to reparse); every other operation keeps the objects it is given"]
OPS = [["get", 0], ["get", -1], ["slice", 0, 2, None], ["slice", None, None, -1], ["slice", 1, None, 2], ["set", 0], ["set", -1], ["del", 0], ["del", -1],
       ["append"], ["extend", "list"], ["extend", "self"], ["iadd", "list"], ["iadd", "self"], ["pop"], ["pop", 0], ["pop", 1], ["remove", 0], ["remove", -1],
       ["insert", 0, "n"], ["insert", 1, " n"], ["insert", 9, "n"], ["reverse"], ["sort"], ["sort", True], ["copy"], ["copycopy"], ["copythendel"], ["copythenappend"],
       ["add", "list"], ["add", "self"], ["add", "tuple"], ["radd", "list"], ["mul", 2], ["rmul", 2], ["imul", 2], ["imul", 0], ["clear"], ["extend", "gen"], ["iadd", "tuple"], ["iadd", "other"], ["set", 1, 3]]


def shards(tier):
    out = []
    for ci in range(len(CFG)):
        for i in range(len(OPS)):
            out.append({"c": ci, "first": i, "d": 3 if tier == "quick" else 4, "f": False})
            out.append({"c": ci, "first": i, "d": 2 if tier == "quick" else 3, "f": True})
    return out


def cases(shard, tier):
    for n in range(shard["d"]):
        for rest in itertools.product(OPS, repeat=n):
            yield {"lines": CFG[shard["c"]], "factory": shard["f"], "ops": [OPS[shard["first"]]] + list(rest)}


def ids(x):
    return [id(o) for o in x]


def check(case, R):
    from ciscoconfparse import CiscoConfParse
    from ciscoconfparse.ciscoconfparse import ConfigList
    p = CiscoConfParse(list(case["lines"]), factory=case["factory"])
    q = CiscoConfParse(["new 1", " new 2"], factory=case["factory"])
    spare = [q.ConfigObjs[0], q.ConfigObjs[1]]
    c = p.ConfigObjs
    m = list(c)
    for op in case["ops"]:
        k, n = op[0], len(m)
        got = want = None

        def fresh_list(x):
            R.true("type", isinstance(x, ConfigList), f"{op} returned {type(x).__name__}")
            R.eq("syntax", x.syntax, c.syntax, f"{op}")
            return ids(x)

        if k == "get":
            if n == 0:
                continue
            got, want = id(c[op[1]]), id(m[op[1]])
        elif k == "slice":
            s = slice(*op[1:])
            got, want = fresh_list(c[s]), ids(m[s])
        elif k == "set":
            if n == 0:
                continue
            at = op[1] if len(op) == 2 else slice(*op[1:])
            c[at] = spare[0] if len(op) == 2 else spare
            m[at] = spare[0] if len(op) == 2 else spare
        elif k == "del":
            if n == 0:
                continue
            del c[op[1]]
            del m[op[1]]
            R.eq("del_texts", [o.text for o in c], [o.text for o in m if o.text.strip()], f"{case['ops']}:")
            R.eq("del_numbers", [o.linenum for o in c], list(range(len(c))), f"{case['ops']}:")
            m = list(c)
        elif k == "append":
            c.append(spare[1])
            m.append(spare[1])
        elif k == "extend":
            c.extend(list(spare) if op[1] == "list" else (o for o in spare) if op[1] == "gen" else c)
            m.extend(spare if op[1] in ("list", "gen") else list(m))
        elif k == "iadd":
            if op[1] != "self":
                c += spare if op[1] == "list" else tuple(spare) if op[1] == "tuple" else q.ConfigObjs
                m += spare
            else:
                c += c
                m += list(m)
            R.true("iadd_type", isinstance(c, ConfigList), type(c).__name__)
        elif k == "pop":
            i = op[1] if len(op) > 1 else -1
            if not (-n <= i < n):
                try:
                    c.pop(i)
                except IndexError:
                    pass
                else:
                    R.fail("pop_error", f"pop({i}) of {n} lines did not fail")
            else:
                got, want = id(c.pop(*op[1:])), id(m.pop(i))
        elif k == "remove":
            if n == 0:
                continue
            o = m[op[1]]
            # the first line equal to it
            j = next(j for j, y in enumerate(m) if (y.linenum, y.text) == (o.linenum, o.text))
            c.remove(o)
            del m[j]
        elif k == "insert":
            c.insert(op[1], op[2])
            R.eq("insert_text", [o.text for o in c], [o.text for o in m][: op[1]] + [op[2]] + [o.text for o in m][op[1]:], f"{case['ops']}:")
            j = min(op[1], n)
            R.eq("insert_keeps", ids(c)[:j] + ids(c)[j + 1:], ids(m), f"{case['ops']}:")
            last = {id(o): i for i, o in enumerate(c)}
            R.eq("insert_numbers", [o.linenum for o in c], [last[id(o)] for o in c], f"{case['ops']}:")
            m.insert(op[1], c[j])
        elif k == "reverse":
            c.reverse()
            m.reverse()
        elif k == "sort":
            c.sort(reverse=len(op) > 1)
            m.sort(key=lambda o: o.linenum, reverse=len(op) > 1)
        elif k in ("copy", "copycopy"):
            got, want = fresh_list(c.copy() if k == "copy" else copy.copy(c)), ids(m)
        elif k == "copythendel":
            x = c.copy()
            if n:
                x.pop(0)
                R.eq("copy_pop", ids(x), ids(m)[1:], f"{case['ops']}:")
            x = copy.copy(c)
            if n:
                del x[0]
                R.eq("copy_del", [o.text for o in x], [o.text for o in m[1:] if o.text.strip()], f"{case['ops']}:")
        elif k == "copythenappend":
            x = c[:]
            x.append(spare[0])
            R.eq("copy_append", ids(x), ids(m) + [id(spare[0])], f"{case['ops']}:")
        elif k == "add":
            got = fresh_list(c + (spare if op[1] == "list" else tuple(spare) if op[1] == "tuple" else c))
            want = ids(m + (m if op[1] == "self" else spare))
        elif k == "radd":
            got, want = fresh_list(spare + c), ids(spare + m)
        elif k == "mul":
            got, want = fresh_list(c * op[1]), ids(m * op[1])
        elif k == "rmul":
            got, want = fresh_list(op[1] * c), ids(op[1] * m)
        elif k == "imul":
            c *= op[1]
            m *= op[1]
            R.true("imul_type", isinstance(c, ConfigList), type(c).__name__)
        elif k == "clear":
            c.clear()
            m.clear()
        R.eq("returned", got, want, f"{case['ops']} at {op}:")
        what = f"{case['ops']} at {op}:"
        R.eq("content", ids(c), ids(m), what)
        R.eq("len", (len(c), bool(c), c.last_index), (len(m), bool(m), len(m) - 1), what)
        for i in range(len(m)):
            R.true("item", c[i] is m[i] and c[i - len(m)] is m[i], what)
            R.true("in", m[i] in c and c.count(m[i]) >= 1 and c.index(m[i]) <= i, what)
        R.eq("ioscfg", p.ioscfg, [o.text for o in m], what)
        R.eq("iter", (ids(c), ids(reversed(c))), (ids(m), ids(reversed(m))), what)
        R.eq("print", ([f"{o}" in repr(c) and f"{o}" in str(c) for o in m], c.syntax in repr(c)), ([True] * len(m), True), what)
        if len(m) < 9:
            other = m[:-1] + [spare[0]]
            for x in (c, c[:], list(m), c[1:], m[:-1], other, c + other[-1:], []):
                y = list(x)
                R.eq("compare", (c == x, c != x, c < x, c > x), (m == y, m != y, m < y, m > y), f"{what} {m} compared with {y}")
                R.eq("compare", (x == c, x != c, x < c, x > c), (y == m, y != m, y < m, y > m), f"{what} {y} compared with {m}")
                R.eq("compare", (c <= x, c >= x), (m <= y, m >= y), f"{what} {m} compared with {y}")
        R.state(tuple((o.text, o.linenum) for o in m))
    R.outcome(tuple(o.text for o in m))
    R.trace()
