"""All nests of control constructs up to a depth, with every way of leaving, as Lang.tla programs."""
import itertools, random

CON = ["if", "else", "while", "for", "each", "sw", "eval", "blk", "call", "swdef"]
LEAF = ["none", "last", "next", "break", "ret", "die", "rt", "evdie"]


def bodies(path, leaf, when, ids):
    """Statements of one nest.  `when`: in which round of the innermost loop the leaf runs (0, 1)."""
    methods = []

    def leafstmts(loopvar):
        n = ids[0]; ids[0] += 1
        ev = ["blk", [["eval", [["die", "m%d" % n, "Error::System", 0, "cls"]]], ["say", "eid", ["erris", "Error::System"]],
                      ["die", "n%d" % n, "Error::NotSupported", 0, "cls"]]]     # one is caught, another of another class leaves
        s = {"none": ["say", "leaf", ["c", n]], "last": ["last"], "next": ["next"], "break": ["break"], "ret": ["ret", ["c", n]],
             "die": ["die", "m%d" % n, "Error::System", 0, "cls"], "evdie": ev,
             "rt": ["x", ["asg", ["cv", "CV0"], ["b", "/", ["c", 1], ["cv", "CV1"], 0]]]}[leaf]
        if when is None or loopvar is None:
            if leaf == "none" or leaf == "rt":
                return [s]
            return [["if", [[["t", "go", ["c", 1]], [s]]], []]]
        return [["if", [[["b", "==", ["v", loopvar], ["c", when], 0], [s]]], []]]

    def nest(i, loopvar, inloop, insw):
        if i == len(path):
            return leafstmts(loopvar)
        k = path[i]
        ids[0] += 1
        n = ids[0]
        g = ["guard", "g%d" % n, "G"]
        pre, post = ["say", "b%d" % n, ["c", i]], ["say", "a%d" % n, ["c", i]]
        if k in ("while", "for", "each"):
            v = "w%d" % n
            inner = [g, pre] + nest(i + 1, v, True, insw) + [post]
            if k == "while":
                return [["my", v, ["c", -1]], ["while", ["b", "<", ["inc", "pre", 1, ["v", v]], ["c", 3], 0], inner], ["say", "o%d" % n, ["v", v]]]
            if k == "for":
                return [["for", v, [["asg", ["v", v], ["c", 0]]], ["b", "<", ["v", v], ["c", 3], 0], [["inc", "post", 1, ["v", v]]], inner], ["say", "o%d" % n, ["c", i]]]
            return [["my", "l%d" % n, ["arr", [["c", 0], ["c", 1], ["c", 2]]]], ["each", v, "l%d" % n, inner], ["say", "o%d" % n, ["c", i]]]
        if k == "call":
            m = {"id": "m%d" % n, "name": "m%d" % n, "params": [], "ret": True, "kind": "static", "cls": None}
            m["body"] = [g, pre] + nest(i + 1, None, False, False) + [post, ["ret", ["c", 0]]]
            methods.append(m)
            return [["say", "r%d" % n, ["call", m["id"], [], 0]], ["say", "o%d" % n, ["c", i]]]
        insw2 = insw or k in ("sw", "swdef")
        inner = [g, pre] + nest(i + 1, loopvar, inloop, insw2) + [post]
        after = [["say", "o%d" % n, ["c", i]]]
        if k == "if":
            return [["if", [[["t", "c%d" % n, ["c", 1]], inner]], [["say", "no", ["c", 0]]]]] + after
        if k == "else":
            return [["if", [[["t", "c%d" % n, ["c", 0]], [["say", "no", ["c", 0]]]], [["and", ["t", "x", ["c", 1]], ["t", "d%d" % n, ["c", 0]]], [["say", "no", ["c", 1]]]]], inner]] + after
        if k == "sw":
            return [["sw", ["t", "k%d" % n, ["c", 2]], [[[1], [["say", "no", ["c", 0]]]], [[3, 2], inner], [[5], [["say", "no", ["c", 1]]]]], [["say", "no", ["c", 2]]], 1]] + after
        if k == "swdef":
            return [["sw", ["t", "k%d" % n, ["c", 9]], [[[1], [["say", "no", ["c", 0]]]], [[100], [["say", "no", ["c", 1]]]]], inner, 1]] + after
        if k == "eval":
            return [["eval", inner], ["show"]] + after
        if k == "blk":
            return [["blk", inner]] + after
        raise Exception(k)
    return nest(0, None, False, False), methods


def valid(path, leaf):
    """Is `leaf` allowed inside `path` (a call starts a new method)?"""
    p = list(path)
    while "call" in p:
        p = p[p.index("call") + 1:]
    loop = any(k in ("while", "for", "each") for k in p)
    sw = any(k in ("sw", "swdef") for k in p)
    if leaf in ("last", "next"):
        return loop
    if leaf == "break":
        return sw
    return True


def rejected(path, leaf):
    """last/next inside a switch that is inside ... the loop etc. are documented as allowed; nothing here."""
    return False


def programs(depth, prefix, per=24, stride=1, offset=0, con=CON, leaves=LEAF):
    """Programs holding every stride-th nest of exactly `depth` constructs."""
    progs, cur, ids, cnt = [], None, [0], 0

    def new():
        return {"name": "%s%d" % (prefix, len(progs)), "methods": [], "cvs": ["CV0", "CV1"], "main": []}

    def close():
        m = {"id": "main", "name": "main", "cls": cur["name"], "params": [], "ret": False, "kind": "static", "body": [["eval", []]] + cur.pop("main")}
        cur["methods"].append(m)
        progs.append(cur)
    n = 0
    for path in itertools.product(con, repeat=depth):
        for leaf in leaves:
            if not valid(path, leaf):
                continue
            p = list(path)
            while "call" in p:
                p = p[p.index("call") + 1:]
            hasloop = any(k in ("while", "for", "each") for k in p)
            for when in ([0, 1] if hasloop and leaf not in ("none", "rt") else [None]):
                cnt += 1
                if (cnt + offset) % stride:
                    continue
                if cur is None:
                    cur = new()
                body, ms = bodies(path, leaf, when, ids)
                mid = "t%d" % cnt
                for i, m in enumerate(ms):
                    m["cls"] = cur["name"] + ("::A" if (cnt + i) % 2 else "")
                    cur["methods"].append(m)
                cur["methods"].append({"id": mid, "name": mid, "cls": cur["name"], "params": [], "ret": True, "kind": "static", "body": body + [["ret", ["c", 77]]]})
                cur["main"] += [["say", "T", ["c", cnt]], ["eval", [["say", "R", ["call", mid, [], 0]]]], ["show"]]
                n += 1
                if n % per == 0:
                    close(); cur = None
    if cur is not None:
        close()
    return progs


INT_MIN, INT_MAX = -(1 << 31), (1 << 31) - 1


def switches(c, n, prefix="SW"):
    """Switch statements over many case sets, extremes included, asked with every case, its neighbours and random values."""
    progs = []
    for i in range(n):
        rng = random.Random("%s/sw/%d" % (c.seed, i))
        pool = [INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, -1, 0, 1, 2, 97, 255, 256, -128, 65536, 65537] + [rng.randint(INT_MIN + 2, INT_MAX - 2) for _ in range(10)] + list(range(10, 10 + rng.randint(0, 25)))
        vals = rng.sample(pool, rng.randint(0, min(30, len(pool))))
        vals = list(dict.fromkeys(vals))
        ask = sorted(set([v + d for v in vals for d in (-1, 0, 1) if INT_MIN <= v + d <= INT_MAX] + [0, INT_MIN, INT_MAX, rng.randint(INT_MIN, INT_MAX)]))
        rng.shuffle(ask)
        cases, vs = [], list(vals)
        while vs:
            m = rng.choice([1, 1, 1, 2, 3])
            body = [["say", "c%d" % len(cases), ["v", "x"]]]
            k = rng.random()
            if k < 0.2:
                body = [["if", [[["b", ">", ["v", "x"], ["c", 0], 0], [["break"]]]], []]] + body
            elif k < 0.3:
                body += [["next"]]
            elif k < 0.35:
                body = []
            cases.append([vs[:m], body]); vs = vs[m:]
        hasdef = rng.random() < 0.7
        main = [["eval", []], ["my", "a", ["arr", [["c", v] for v in ask]]],
                ["each", "x", "a", [["sw", ["v", "x"], cases, [["say", "d", ["v", "x"]]] if hasdef else [], 1 if hasdef else 0], ["say", "after", ["c", 0]]]]]
        nm = "%s%d" % (prefix, i)
        progs.append({"name": nm, "cvs": ["CV0", "CV1"], "methods": [{"id": "main", "name": "main", "cls": nm, "params": [], "ret": False, "kind": "static", "body": main}]})
    return progs
