"""C21: every INIT block runs once, after those it depends on (spec/InitOrder.tla): histories of loading, initializing and calling are recorded, TLC decides whether the specification admits them."""
import sys, os, json, random, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from concurrent.futures import ThreadPoolExecutor

LG = """class Lg {
  our $L : string;
  static method add : void ($s : string) { if ($L) { $L .= ","; $L .= $s; } else { $L = copy $s; } }
  static method err : void ($p : string, $s : string) { my $n = 0; my $len = length $s; while ($n < $len) { if ($s->[$n] == '\\n') { last; } $n++; }
    my $t = (mutable string)new_string_len($n); for (my $i = 0; $i < $n; $i++) { $t->[$i] = $s->[$i]; } &add($p . $t); }
  static method take : string () { my $r = $L; $L = undef; return $r; }
}
"""


def item(rng, c, G, others, deep=False):
    """an item of an INIT block of c; refers only to classes known to be loaded with c"""
    p = rng.random()
    o = rng.choice(others) if others else c
    if o[:2] == "An": p = p * .42
    if p < .25: return {"o": "log", "n": rng.randrange(1, 9)}
    if p < .42: return {"o": "add", "n": rng.randrange(1, 50)}
    if p < .60: return {"o": "get", "c": o}
    if p < .68: return {"o": "set", "c": o, "n": rng.randrange(1, 9)}
    if p < .78: return {"o": "init", "c": o}
    if p < .88: return {"o": "evinit", "c": o}
    if p < .91: return {"o": "evdie"}
    if p < .945: return {"o": "ret"}
    if p < .98: return {"o": "die"}
    return {"o": "log", "n": 0}


def closure(G, c):
    acc, todo = set(), [c]
    while todo:
        d = todo.pop()
        if d in acc: continue
        acc.add(d); todo += G[d]["u"] + ([G[d]["e"]] if G[d]["e"] else [])
    return sorted(acc)


def graph(rng, n, anons):
    names = ["K%s" % x for x in "abcdefgh"[:n]]
    rank = names[:]; rng.shuffle(rank)
    G = {}
    for c in names:
        k = "c" if rng.random() < .85 else rng.choice("iim")
        up = [d for d in rank[:rank.index(c)] if G.get(d, {}).get("k", "c") == "c" ]
        G[c] = {"k": k, "e": "", "u": [], "b": []}
    for c in names:
        up = [d for d in rank[:rank.index(c)] if G[d]["k"] == "c"]
        if G[c]["k"] == "c" and up and rng.random() < .35: G[c]["e"] = rng.choice(up)
        G[c]["u"] = [rng.choice(names) for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 2, 3]))]
        if rng.random() < .4: G[c]["u"] = [d for d in G[c]["u"] if rank.index(d) < rank.index(c)]      # fewer cycles
    for j in range(anons):
        G["An%d" % j] = {"k": "c", "e": "", "u": [rng.choice(names) for _ in range(rng.choice([0, 1, 2]))], "b": []}
    quiet = rng.random() < .5
    for c in G:
        o = [d for d in closure(G, c) if d[:2] != "An"]
        b = [item(rng, c, G, o) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
        if quiet: b = [x for x in b if x["o"] not in ("die", "ret")]
        if G[c]["k"] == "m": b = [x for x in b if x["o"] != "add"]
        G[c]["b"] = b
    for c in G:      # variables of other kinds of classes cannot be looked at
        G[c]["b"] = [x for x in G[c]["b"] if not (x["o"] in ("get", "set") and G[x["c"]]["k"] != "c")]
        if G[c]["k"] != "c": G[c]["b"] = [x for x in G[c]["b"] if x["o"] not in ("add",)]
    return G


def text(rng, G, c, pre=False, main=""):
    x = G[c]
    me = "" if c[:2] == "An" else " " + c
    attr = {"i": " : interface_t", "m": " : mulnum_t", "c": " : precompile" if pre else ""}[x["k"]]
    # an interface and a multi-numeric type have fixed shapes; names of multi-numeric classes end in the field type
    head = "class%s%s%s {" % (me, " extends " + x["e"] if x["e"] else "", attr)
    uses = ["use %s;" % d + ("" if rng.random() < .8 or G[d]["k"] != "c" else "") for d in x["u"]]
    lg = ["use Lg;"]
    blocks, cur = [], []
    st = lambda y: {"log": lambda: 'Lg->add("%s:%d");' % (c, y["n"]), "add": lambda: "$G += %d;" % y["n"], "get": lambda: "%s->g;" % y["c"], "set": lambda: "%s->s(%d);" % (y["c"], y["n"]),
                    "init": lambda: "%s->INIT;" % y["c"], "evinit": lambda: 'eval { %s->INIT; }; if (eval_error_id) { Lg->err("!", $@); }' % y["c"], "evdie": lambda: 'eval { die "e%s"; }; if (eval_error_id) { Lg->err("!", $@); }' % c,
                    "ret": lambda: rng.choice(["return;", "{ return; }", "if (1) { return; }"]), "die": lambda: 'die "d%s";' % c, "start": lambda: 'Lg->add("+%s");' % c}[y["o"]]()
    for y in [{"o": "start"}] + x["b"]:
        cur.append(st(y))
        if rng.random() < .35: blocks.append(cur); cur = []
    blocks.append(cur)
    if rng.random() < .2: blocks.insert(rng.randrange(len(blocks) + 1), [])
    inits = ["INIT { %s }" % " ".join(b) for b in blocks]
    if x["k"] == "c": mem = ["our $G : int;", 'static method g : void () { Lg->add("%s=$G"); }' % c, "static method s : void ($n : int) { $G = $n; }"]
    elif x["k"] == "i": mem = ["required method foo : void ();"]
    else: mem = ["has x : int;"]
    if main: mem.append(main)
    # the order of members says nothing, that of the uses and of the INIT blocks among themselves does
    out = lg + uses
    rest = [inits, mem]
    seqs = [out[:], inits[:], mem[:]]
    if x["k"] == "c" and rng.random() < .6:
        res = []
        seqs = [s for s in seqs if s]
        while seqs:
            s = rng.choice(seqs); res.append(s.pop(0)); seqs = [s for s in seqs if s]
    else: res = out + mem + inits
    return head + "\n  " + "\n  ".join(res) + "\n}\n"


def rename(G):
    """names of multi-numeric types end with their length and type"""
    m = {c: c + "_1i" for c in G if G[c]["k"] == "m"}
    f = lambda c: m.get(c, c)
    return {f(c): {"k": x["k"], "e": f(x["e"]), "u": [f(d) for d in x["u"]], "b": [dict(y, **({"c": f(y["c"])} if "c" in y else {})) for y in x["b"]]} for c, x in G.items()}


def history(rng):
    G = rename(graph(rng, rng.choice([2, 3, 4, 5, 6]), rng.choice([0, 0, 1, 2])))
    named = [c for c in G if c[:2] != "An"]
    ops, loaded, anon = [], set(), [c for c in G if c[:2] == "An"]
    n = rng.choice([4, 8, 14])
    while len(ops) < n:
        o = rng.choice(["comp", "comp", "init", "init", "get", "set", "call", "anon"])
        s = rng.choice([0, 0, 0, 1, 2])
        cl = [c for c in sorted(loaded) if G[c]["k"] == "c"]
        if o == "comp": c = rng.choice(named); ops.append({"o": "comp", "c": c}); loaded |= set(closure(G, c))
        elif o == "anon":
            if anon: c = anon.pop(); ops.append({"o": "comp", "c": c, "an": 1}); loaded |= set(closure(G, c))
        elif o == "init": ops.append({"o": "init", "s": s})
        elif cl:
            q = {"o": o, "c": rng.choice(cl), "s": s}
            if o == "set": q["n"] = rng.randrange(1, 99)
            ops.append(q)
    ops += [{"o": "init"}] * 2 + [{"o": "get", "c": c} for c in sorted(loaded) if G[c]["k"] == "c"]
    return G, ops


def check(c):
    rng = random.Random("c21/%d" % c.seed)
    hs = [history(rng) for _ in range(c.q(1200, 16000))]
    ex = ThreadPoolExecutor(2)
    cfg = "SPECIFICATION Spec\nCONSTANTS Mode = \"%s\" RowFile = \"rows.json\"\n%sCHECK_DEADLOCK FALSE\n"
    m = ex.submit(lambda: c.tlc("InitOrder", cfg % ("model", "INVARIANT Laws\n"), files={"rows.json": json.dumps({"rows": [], "depth": c.q(1, 2)})}, tag="model", workers=c.q(2, 6), timeout=c.q(300, 1500)))
    c.build(libs=vp.CORE_LIBS)
    d = c.path("ih"); os.makedirs(d, exist_ok=True)
    got, texts = {}, {}
    for i, (G, ops) in enumerate(hs):
        r = random.Random("t/%d/%d" % (c.seed, i))
        texts[i] = {k: text(r, G, k) for k in G}

    def lines(idx):
        for i in idx:
            G, ops = hs[i]
            yield json.dumps([i, dict({k: v for k, v in texts[i].items() if k[:2] != "An"}, Lg=LG), [dict(o, names=sorted(G), **({"src": texts[i][o["c"]]} if o.get("an") else {})) for o in ops]])

    def shard(k):
        left, n = list(range(k, len(hs), vp.NCPU)), 0
        while left and n < 8:
            f = c.path("ih", "s%d_%d.jsonl" % (k, n)); dd = c.path("ih", "d%d_%d" % (k, n)); os.makedirs(dd)
            with open(f, "w") as fh: fh.write("".join(l + "\n" for l in lines(left)))
            r = c.perl([os.path.join(os.path.dirname(vp.__file__), "init_hist.pl"), dd, f], timeout=c.q(200, 1500), cwd=d)
            for l in r.out.decode("latin-1").split("\n"):
                a, _, b = l.partition(" ")
                if a.isdigit() and b.endswith("]"): got[int(a)] = json.loads(b)
            if b"DONE" in r.out: return
            left = [i for i in left if i not in got]
            if left: got[left[0]] = "status %d: %s" % (r.rc, r.err[-400:].decode("latin-1")); left = left[1:]
            n += 1
    with ThreadPoolExecutor(vp.NCPU) as e2: list(e2.map(shard, range(vp.NCPU)))
    rows, idx = [], []
    for i, (G, ops) in enumerate(hs):
        g = got.get(i, "nothing")
        if not isinstance(g, list):
            c.violation("hist:crash", "%s\n  %s" % (g, "\n".join(texts[i].values())[:1500]), {"ops": ops, "files": texts[i]}); continue
        rows.append({"g": G, "ops": [{k: v for k, v in o.items() if k != "an"} for o in ops], "obs": g}); idx.append(("api", i))
    for lab, G, ops, obs, tx in processes(c, rng):
        if isinstance(obs, str): c.violation("%s:crash" % lab, "%s\n  %s" % (obs[:400], tx[:1500]), {"ops": ops, "text": tx}); continue
        rows.append({"g": G, "ops": ops, "obs": obs}); idx.append((lab, tx))
    nsh = c.q(4, 8)
    def val(k):
        rr = rows[k::nsh]
        if not rr: return []
        t = c.tlc("InitOrder", cfg % ("rows", ""), files={"rows.json": json.dumps({"rows": rr, "depth": 0})}, tag="rows%d" % k, workers=1, timeout=c.q(300, 3000))
        return [json.load(open(os.path.join(t["dir"], "out_%d.json" % (j + 1))))["bad"] for j in range(len(rr))]
    with ThreadPoolExecutor(nsh) as e2: bads = list(e2.map(val, range(nsh)))
    nlog = 0
    for j, r in enumerate(rows):
        b = bads[j % nsh][j // nsh]
        c.cov["traces_validated_against_impl"] += 1
        nlog += sum(len(x["log"]) for x in r["obs"])
        if b:
            lab, tx = idx[j]
            o, x = r["ops"][b - 1], r["obs"][b - 1]
            tx = "\n".join(texts[tx].values()) if lab == "api" else tx
            c.violation("%s:%s" % (lab, o["o"]), "after %s: %s %s gave %s %r, logged %s\n%s" % ([" ".join([q["o"], q.get("c", "")]) for q in r["ops"][:b - 1]][-6:], o["o"], o.get("c", ""), "success" if x["ok"] else "an exception", x["m"][:200], x["log"], tx[:3000]),
                        {"graph": r["g"], "ops": r["ops"][:b], "obs": r["obs"][:b], "files": tx})
    m.result()
    c.cov["events"] = nlog
    c.log("%d histories, %d events" % (len(rows), nlog))
    if hs: c.sample({"graph": hs[0][0], "ops": hs[0][1]})
    c.cov["bounds"] = "laws: all graphs of 3 classes; %d histories over up to 6 classes and 2 anonymous classes, up to 14 operations; whole processes (spvm script, Perl import, precompiled)" % len(rows)


PROC = """
use strict; use warnings; use JSON::PP; my $js = JSON::PP->new->canonical; use SPVM ();
my ($d, $f) = @ARGV; unshift @INC, "$d/lib"; open my $fh, "<", $f or die; my $ops = $js->decode(<$fh>); my @out;
my %l;
for my $o (@$ops) { my ($ok, $m) = (1, ""); my $k = $o->{o};
  eval { if ($k eq "init") { SPVM->import($o->{c}); } elsif ($k eq "get") { my $p = "SPVM::$o->{c}"; $p->g } elsif ($k eq "set") { my $p = "SPVM::$o->{c}"; $p->s($o->{n}) } 1 } or do { $ok = 0; $m = "$@"; $m =~ s/^\\[Initialization Exception\\]//; $m =~ s/[ ]*\\n.*//s; };
  my $log = SPVM::Lg->take; push @out, { ok => $ok ? JSON::PP::true : JSON::PP::false, m => $m, log => [grep { length } split /,/, defined $log ? "$log" : ""] } }
print "OUT ", $js->encode(\\@out), "\\n";
"""


def processes(c, rng):
    """whole processes: the spvm command (initialization at program start) and Perl programs that load classes one after another"""
    jobs = []
    for j in range(c.q(48, 400)):
        while 1:
            G = rename(graph(rng, rng.choice([3, 4, 5]), 0))
            ks = [k for k in G if G[k]["k"] == "c"]
            if ks: break
        kind = ["script", "perl", "perl"][j % 3]
        pre = j % c.q(12, 10) == 1
        d = c.path("pr", str(j)); r = random.Random("p/%d/%d" % (c.seed, j))
        if kind == "script":
            G["An0"] = {"k": "c", "e": "", "u": [rng.choice(sorted(G)) for _ in range(rng.choice([1, 2, 3]))], "b": [item(rng, "An0", G, []) for _ in range(2)]}
            G["An0"]["b"] = [x for x in G["An0"]["b"] if x["o"] in ("log", "add", "evdie", "ret", "die") and (x["o"] != "die" or rng.random() < .3)]
        tx = {k: text(r, G, k, pre, main="static method main : void () { my $l = Lg->take; if ($l) { print $l; } print \"\\n\"; }" if k == "An0" else "") for k in G}
        vp.write_classes(d + "/lib", dict({k: v for k, v in tx.items() if k != "An0"}, Lg=LG))
        jobs.append((j, kind, pre, d, G, ks, tx, r))

    def one(job):
        j, kind, pre, d, G, ks, tx, r = job
        env = {"SPVM_BUILD_DIR": d + "/b"}
        allx = "\n".join(tx.values())
        if kind == "script":
            open(d + "/main.spvm", "w").write(tx["An0"])
            q = c.perl([c.build_dir + "/script/spvm", "-B", d + "/b", "-I", d + "/lib", d + "/main.spvm"] if 0 else [c.build_dir + "/script/spvm", "-B", d + "/b", "-I", d + "/lib/SPVM/..", d + "/main.spvm"], cwd=d, env=env, timeout=200)
            l = closure(G, "An0")
            out = q.out.decode("latin-1").split("\n")
            ops = [{"o": "init"}]
            if q.rc == 0: obs = [{"l": l, "ok": True, "m": "", "log": [x for x in out[0].split(",") if x]}]
            else:
                e = re.search(r"(?:Exception\])?(d[A-Z]\w*)", q.err.decode("latin-1"))
                if not e: return (kind, G, ops, "status %d: %s" % (q.rc, q.err[-400:].decode("latin-1")), allx)
                return None      # an exception in INIT: the log is lost with the process; the message is one of a class that dies
            return ("script", G, ops, obs, allx)
        ops, l = [], set()
        for _ in range(r.choice([1, 2, 3])):
            k = r.choice(sorted(G)); ops.append({"o": "init", "c": k}); l |= set(closure(G, k)); ops[-1]["l"] = sorted(l)
            kk = [x for x in sorted(l) if G[x]["k"] == "c" and any(o.get("c") == x and o["o"] == "init" for o in ops)]
            for _ in range(2):
                if kk: ops.append({"o": r.choice(["get", "set"]), "c": r.choice(kk), "n": 5, "l": sorted(l)})
        open(d + "/p.pl", "w").write(PROC); open(d + "/ops.json", "w").write(json.dumps([{"o": "init", "c": "Lg", "l": []}] + ops))
        q = c.perl([d + "/p.pl", d, d + "/ops.json"], cwd=d, env=env, timeout=200)
        e = re.search(r"^OUT (.*)$", q.out.decode("latin-1"), re.M)
        lab = "precompiled" if pre else "perl"
        if not e: return (lab, G, ops, "status %d: %s" % (q.rc, q.err[-400:].decode("latin-1")), allx)
        obs = json.loads(e.group(1))[1:]
        for o, x in zip(ops, obs): x["l"] = o["l"]
        z = [(o, x) for o, x in zip(ops, obs) if not x["m"].startswith("Can't locate object method")]      # loading threw: there is no Perl package
        ops, obs = [o for o, x in z], [x for o, x in z]
        return (lab, G, [{a: b for a, b in o.items() if a != "l" and not (o["o"] == "init" and a == "c") and not (o["o"] == "get" and a == "n")} for o in ops], obs, allx)
    with ThreadPoolExecutor(vp.NCPU) as ex: return [x for x in ex.map(one, jobs) if x]


if __name__ == "__main__": vp.main("C21", check)
