"""Runs Lang.tla on generated programs and compares with the implementation."""
import json, os, random, re
import vp, langgen


def generate(c, n, seed, opts=None, size=(15, 40), nmeth=(1, 5), prefix="P"):
    progs = []
    for i in range(n):
        rng = random.Random("%s/%s/%s" % (seed, prefix, i))
        g = langgen.Gen(rng, "%s%d" % (prefix, i), opts)
        p = g.program(size=rng.randint(*size), nmeth=rng.randint(*nmeth), depth=rng.randint(2, 4))
        progs.append(p)
    return progs


def strip(p):
    """The abstract syntax as Lang.tla reads it."""
    return {"cvs": p["cvs"], "methods": [{"name": m["id"], "cls": m["cls"], "params": m["params"], "body": m["body"], "file": m["file"]} for m in p["methods"]]}


def spec_run(c, progs, tag="lang", workers=8, timeout=600):
    """Needs rendered programs (line numbers).  Returns the specification's outcome of each."""
    res = c.tlc("Lang", 'SPECIFICATION Spec\nINVARIANT Balanced\nPROPERTY OutGrows\nCHECK_DEADLOCK FALSE\nCONSTANT ProgFile = "progs.json"\nCONSTANT NoVal = NoVal\n',
                files={"progs.json": json.dumps([strip(p) for p in progs])}, workers=workers, timeout=timeout, tag=tag)
    outs = []
    for i in range(len(progs)):
        outs.append(json.load(open(os.path.join(res["dir"], "out_%d.json" % (i + 1)))))
    return outs


def norm(lines):
    """Runs of destructor lines are compared as multisets."""
    out, run = [], []
    for l in lines:
        if l.startswith("D "):
            run.append(l)
        else:
            out += sorted(run); run = []
            out.append(l)
    return out + sorted(run)


_path = re.compile(r" at \S*?([^/\s]+\.spvm) line ")


def canon(txt):
    return _path.sub(r" at \1 line ", txt)


_native = re.compile(r"^    \w+ at \S+\.[ch] line \d+")


def exc_text(e):
    return e and canon(e).split("\n    XS_SPVM")[0]


def real_lines(o):
    ls = [canon(l) for l in o.lines]
    return [l for l in ls if not _native.match(l)]


def match(exp, got):
    """exp lines may contain <builtin> for the text of a message the documentation does not fix."""
    if "<builtin>" not in exp:
        return exp == got
    return re.fullmatch(re.escape(exp).replace(re.escape("<builtin>"), r"[^\[\]]+?"), got) is not None


def compare(exp, o):
    """None if the execution is the specification's, else a description."""
    if o.compile_error is not None:
        return "did not compile: " + o.compile_error[:600]
    if o.crash:
        return "crashed: " + o.crash
    want = norm("\n".join(exp["out"]).split("\n")) if exp["out"] else []
    got = norm(real_lines(o))
    for i, w in enumerate(want):
        if i >= len(got):
            return "observation %d: specification %r, program ended" % (i, w)
        if not match(w, got[i]):
            return "observation %d: specification %r, program %r" % (i, w, got[i])
    if len(got) > len(want):
        return "observation %d: specification ends, program %r" % (len(want), got[len(want)])
    if exp["halt"] == "exc":
        if o.exc is None:
            return "specification: exception %r leaves main; program: none" % exp["xm"]
        g = "\n".join(l for l in canon(o.exc).split("\n") if not _native.match(l))
        if not re.match(re.escape(exp["xm"]).replace(re.escape("<builtin>"), r"[^\[\]]+?"), g):
            return "specification: exception %r leaves main; program: %r" % (exp["xm"], g)
    elif o.exc is not None:
        return "program: exception %r leaves main; specification: none" % o.exc[:500]
    left = 1 if exp["halt"] != "exc" and exp["at"] != "none" else 0      # the string $@ holds (the runner clears it after an exception)
    if o.mem is not None and o.mem != left:
        return "memory blocks: %d more after the program than before, expected %d" % (o.mem, left)
    return None


def check_programs(c, progs, mode="vm", tag="lang", exps=None, mem=True, exact=False, timeout=600):
    """mode: vm | pre | mix.  exact: the output of the precompiled form is also compared, line by line, with that of the
    interpreted form.  Returns (expectations, number compared)."""
    shared = dict(langgen.SHARED)
    main, rng = {}, random.Random(c.seed)
    vmshared, vmmain = dict(langgen.SHARED), {}
    for p in progs:
        if exact:
            files = langgen.Printer(p, []).render()
            vmmain[p["name"]] = files.pop(p["name"])
            vmshared.update(files)
        names = [p["name"], p["name"] + "::A", p["name"] + "::B"]
        pre = names if mode == "pre" else [n for n in names if rng.random() < 0.5] if mode == "mix" else []
        files = langgen.Printer(p, pre).render()
        main[p["name"]] = files.pop(p["name"])
        shared.update(files)
    if exps is None:
        exps = spec_run(c, progs, tag, timeout=timeout)
    t = vp.time.time()
    out = vp.run_programs(c, main, shared=shared, mem=mem, jit=(mode != "vm"), timeout=300)
    c.log("ran %d programs (%s) in %.1fs" % (len(main), mode, vp.time.time() - t))
    vmout = vp.run_programs(c, vmmain, shared=vmshared, mem=mem) if exact else {}
    n = 0
    for p, e in zip(progs, exps):
        if e["halt"] == "big":
            continue
        n += 1
        d = compare(e, out[p["name"]])
        if not d and exact:
            v = vmout[p["name"]]
            a, b = real_lines(out[p["name"]]), real_lines(v)
            if a != b:
                j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                d = "interpreted and precompiled forms differ at observation %d: %r, %r" % (j, b[j:j+1], a[j:j+1])
            elif exc_text(v.exc) != exc_text(out[p["name"]].exc):
                d = "exceptions differ: %r, %r" % (v.exc, out[p["name"]].exc)
        if d:
            c.violation("%s:%s" % (mode, p["name"]), "[%s] program %s: %s" % (mode, p["name"], d),
                        {"sources": {k: v for k, v in list(shared.items()) + list(main.items()) if k == p["name"] or k.startswith(p["name"] + "::")},
                         "specification": e, "got": out[p["name"]].brief()})
    c.cov["traces_validated_against_impl"] += n
    return exps, n
