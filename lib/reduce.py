"""Development aid: shrinks a program on which implementation and specification differ."""
import copy, json, sys
import vp, langgen, langcheck


def rename(p, new):
    old = p["name"]
    p = copy.deepcopy(p)
    p["name"] = new
    for m in p["methods"]:
        m["cls"] = new + m["cls"][len(old):]
    return p


def lists(p):
    """All statement lists of a program."""
    out = []

    def walk(ss):
        out.append(ss)
        for s in ss:
            k = s[0]
            if k == "if":
                for _, b in s[1]:
                    walk(b)
                walk(s[2])
            elif k in ("unless", "while"):
                walk(s[2])
            elif k == "for":
                walk(s[5])
            elif k == "each":
                walk(s[3])
            elif k == "sw":
                for _, b in s[2]:
                    walk(b)
                walk(s[3])
            elif k in ("eval", "blk"):
                walk(s[1])
    for m in p["methods"]:
        walk(m["body"])
    return out


def exprs(x, path=()):
    if isinstance(x, list):
        if x and x[0] == "inc":
            return
        if x and isinstance(x[0], str) and x[0] in ("b", "neg", "not", "and", "or", "seq", "t", "call", "op=", "asg", "el", "cv", "len", "inc"):
            yield path
        for i, y in enumerate(x):
            yield from exprs(y, path + (i,))


def cands(p):
    n = len(lists(p))
    for li in range(n):
        L = lists(p)[li]
        for i in range(len(L)):
            if i == 0 and any(s[0] == "while" and s[2] is L for b in lists(p) for s in b):
                continue
            q = copy.deepcopy(p)
            del lists(q)[li][i]
            yield q
            s = L[i]
            for b in ([s[1]] if s[0] in ("eval", "blk") else [s[2]] if s[0] in ("unless",) else [x[1] for x in s[1]] + [s[2]] if s[0] == "if" else [x[1] for x in s[2]] if s[0] == "sw" else []):
                q = copy.deepcopy(p)
                lists(q)[li][i:i + 1] = copy.deepcopy(b)
                yield q
            if s[0] == "my" or s[0] == "say":
                pass
    for mi, m in enumerate(p["methods"]):
        for path in list(exprs(m["body"])):
            q = copy.deepcopy(p)
            x = q["methods"][mi]["body"]
            for j in path[:-1]:
                x = x[j]
            if isinstance(x, list) and path and not (x and x[0] in ("x", "op=", "asg", "inc") and path[-1] == 1 and x[0] == "x"):
                x[path[-1]] = ["c", 0]
                yield q


def reduce(c, p, kind, mode="vm"):
    rnd = 0
    while True:
        cs = list(cands(p))
        rnd += 1
        progs = [rename(q, "R%dx%d" % (rnd, i)) for i, q in enumerate(cs)]
        langcheck.RESULT = {}
        good = []
        for lo in range(0, len(progs), 400):
            part = progs[lo:lo + 400]
            main, shared, ok = {}, dict(langgen.SHARED), []
            for q in part:
                try:
                    names = [q["name"], q["name"] + "::A", q["name"] + "::B"]
                    f = langgen.Printer(q, names if mode == "pre" else []).render()
                except Exception:
                    continue
                main[q["name"]] = f.pop(q["name"]); shared.update(f); ok.append(q)
            out = vp.run_programs(c, main, shared=shared, mem=True, jit=(mode != "vm"), timeout=20)
            ok = [q for q in ok if out[q["name"]].compile_error is None]
            if not ok:
                continue
            exps = langcheck.spec_run(c, ok, "red")
            for q, e in zip(ok, exps):
                if e["halt"] == "big":
                    continue
                d = langcheck.compare(e, out[q["name"]])
                if d and kind(d):
                    good.append(q)
            if good:
                break
        if not good:
            return p
        p = min(good, key=lambda q: len(json.dumps(q)))
        print("round", rnd, len(json.dumps(p)), file=sys.stderr)
