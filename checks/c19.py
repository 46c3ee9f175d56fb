"""C19: handles of Perl keep SPVM objects alive, and nothing leaks across the border (spec/Handles.tla)."""
import sys, os, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, heapgen
from concurrent.futures import ThreadPoolExecutor

CLASSES = {"Hn": r'''class Hn {
  use Hn::Cb; use Hn::Err; use Hn::M_2i;
  our $G : Hn; our $LOG : int[]; our $LOGN : int;
  has id : int; has d : int; has a : Hn; has w : Hn; has l : Hn[];
  static method log_init : void () { $LOG = new int[10000]; $LOGN = 0; }
  static method log_clear : void () { $LOGN = 0; }
  static method logn : int () { return $LOGN; }
  static method logged : int ($i : int) { return $LOG->[$i]; }
  static method quiet : void () { eval { }; }
  static method new : Hn ($id : int, $d : int) { my $s = new Hn; $s->{id} = $id; $s->{d} = $d; return $s; }
  static method new_a : Hn ($id : int, $a : Hn) { my $s = new Hn; $s->{id} = $id; $s->{a} = $a; return $s; }
  method id : int () { return $self->{id}; }
  method DESTROY : void () {
    if ($LOG) { $LOG->[$LOGN] = $self->{id}; $LOGN++; }
    if ($self->{d} == 1) { die "in the destructor"; }
    if ($self->{d} == 2) { $G = undef; }
    if ($self->{d} == 3) { eval { die "caught"; }; eval { }; }
  }
  method set_a : void ($o : Hn) { $self->{a} = $o; }
  method set_w : void ($o : Hn) { $self->{w} = $o; weaken $self->{w}; }
  method set_l : void ($l : Hn[]) { $self->{l} = $l; }
  method a : Hn () { return $self->{a}; }
  method w : Hn () { return $self->{w}; }
  method l : Hn[] () { return $self->{l}; }
  method me : Hn () { return $self; }
  static method SET_G : void ($o : Hn) { $G = $o; }
  static method G : Hn () { return $G; }
  static method swapg : Hn ($o : Hn) { my $old = $G; $G = $o; return $old; }
  static method both : Hn[] ($a : Hn, $b : Hn) { return [$a, $b]; }
  static method first : Hn ($l : Hn[]) { return $l->[0]; }
  static method closure : Hn::Cb ($o : Hn) { return [has o : Hn = $o] method : Hn () { return $self->{o}; }; }
  static method run : Hn ($c : Hn::Cb) { return $c->(); }
  method fail : void ($o : Hn, $x : int) {
    my $t = Hn->closure($o);
    if ($x == 2) { $self->{a} = $o; }
    if ($x == 4) { die Hn::Err "boom $x"; }
    die "boom $x";
  }
  method refuse : void ($l : Hn[], $x : int[], $s : int) { die "boom 3"; }
}''', "Hn::M_2i": "class Hn::M_2i : mulnum_t { has x : int; has y : int; }", "Hn::Cb": "class Hn::Cb : interface_t { required method : Hn (); }", "Hn::Err": "class Hn::Err extends Error : public;"}

CFG = """SPECIFICATION %(spec)s
CONSTANTS MaxObj=%(obj)d MaxH=%(mh)d NP=%(np)d Kinds={%(kinds)s} MaxLen=%(len)d Destr={%(destr)s} EveryStep=%(every)s
%(view)sINVARIANTS CountExact HandlesHeld NoDangling LeftOver
CHECK_DEADLOCK FALSE
"""
CONF = [   # tag, kinds, length (quick, thorough), parameters
    ("vars", ["new", "copy", "drop", "weakp", "push", "shift", "me"], (4, 5), dict(obj=2, np=2, mh=4)),
    ("fields", ["new", "set", "setnew", "get", "drop", "copy"], (4, 5), dict(obj=3, np=2, mh=4)),
    ("arrays", ["new", "arr", "arrv", "setl", "setlp", "get", "aget", "aset", "elems", "wide", "first"], (3, 4), dict(obj=4, np=2, mh=4)),
    ("globals", ["new", "setg", "getg", "swapg", "drop", "fail", "failnew", "set"], (3, 4), dict(obj=3, np=2, mh=4, destr=(0, 1, 2, 3))),
    ("misc", ["new", "newa", "temp", "chain", "clo", "run", "opt", "optget", "scope", "dieh"], (3, 4), dict(obj=5, np=2, mh=4)),
]
ALL = ["new", "temp", "newa", "copy", "drop", "weakp", "push", "shift", "set", "setnew", "get", "me", "chain", "setg", "getg", "swapg", "setl", "setlp", "arr", "arrv", "opt", "optget",
       "aget", "aset", "elems", "wide", "first", "clo", "run", "fail", "failnew", "scope", "dieh"]


def cfg(spec, kinds, ln, every, obj, np, mh, destr=(0,)):
    return CFG % dict(spec=spec, obj=obj, mh=mh, np=np, kinds=heapgen.q(kinds), len=ln, destr=",".join(map(str, destr)), every="TRUE" if every else "FALSE", view="" if every else "VIEW View\n")


def norm(o):
    o = dict(o); o["d"] = sorted(o["d"]); return o


def check(c):
    c.build(libs=vp.CORE_LIBS)
    d = c.path("hn"); os.makedirs(d, exist_ok=True)
    vp.write_classes(d, CLASSES)
    with ThreadPoolExecutor(4) as ex:
        ms = list(ex.map(lambda x: heapgen.tlc_records(c.tlc("Handles", cfg("Spec", x[1], c.q(*x[2]), False, **x[3]), tag=x[0], workers=1, timeout=c.q(300, 3000))), CONF))
    jobs = []
    for (tag, kinds, ln, par), recs in zip(CONF, ms):
        cap = c.q(2500, 40000)
        jobs += [(tag, par["np"], False, r) for r in (recs if len(recs) <= cap else random.Random(c.seed).sample(recs, cap))]
        c.log("%s: %d states, %d traces run" % (tag, len(recs), min(len(recs), cap)))
    n, np_ = c.q(600, 8000), 5
    def sim(i):
        return heapgen.tlc_records(c.tlc("Handles", cfg("SpecSim", ALL, 40, True, 9, np_, 14, (0, 1, 2, 3)), simulate=(n + 5) // 6, depth=45, seed=c.seed * 1000 + i, tag="sim%d" % i, timeout=c.q(300, 3000)))
    with ThreadPoolExecutor(6) as ex:
        jobs += [("sim", np_, True, r) for rs in ex.map(sim, range(6)) for r in rs]
    by = {}
    for i, j in enumerate(jobs): by.setdefault(j[1], []).append(i)
    got = {}

    def shard(x):
        name, np, idx = x
        f = c.path("hn", name + ".jsonl")
        left = list(idx)
        for _ in range(5):
            with open(f, "w") as fh:
                for i in left: fh.write(json.dumps([i, 1 if jobs[i][2] else 0, [[s[0], s[1]] for s in jobs[i][3]["tr"]]]) + "\n")
            r = c.perl([os.path.join(os.path.dirname(vp.__file__), "handles.pl"), d, f, str(np)], timeout=c.q(200, 1500), cwd=d)
            for l in r.out.decode().split("\n"):
                k, _, v = l.partition(" ")
                if k.isdigit(): got[int(k)] = json.loads(v)
            if b"DONE" in r.out:
                err = b"\n".join(l for l in r.err.split(b"\n") if l.strip() and b"in the destructor" not in l and b"Hn->DESTROY" not in l)
                if r.rc != 0 or b"panic" in err or b"Attempt" in err:
                    c.violation("exit", "the process ended with status %d while handles were left\n%s" % (r.rc, err[-600:].decode("latin-1")), {"err": err[-2000:].decode("latin-1")})
                return
            left = [i for i in left if i not in got]
            if not left: return
            got[left[0]] = "status %d: %s" % (r.rc, r.err[-400:].decode("latin-1"))
            left = left[1:]
            if not left: return
    sh = [("s%d_%d" % (np, k), np, idx[k::4]) for np, idx in by.items() for k in range(4)]
    with ThreadPoolExecutor(vp.NCPU) as ex: list(ex.map(shard, sh))
    for i, (tag, np, every, r) in enumerate(jobs):
        want = ([x[2][0] for x in r["tr"]] if every else [r["ob"]]) + [r["fin"]]
        g = got.get(i, "nothing")
        c.cov["traces_validated_against_impl"] += 1
        if isinstance(g, list):
            # a trace observed once has the destructors of all its operations together
            for k, (a, b) in enumerate(zip(want, g)):
                a, b = norm(a), norm(b)
                if not every and k == 0: a.pop("d"); b.pop("d")
                if a != b: break
            else: continue
            ops = [x[0] for x in r["tr"]][:k + 1 if every else None]
            what = "after %s\n  expected %s\n  got      %s" % (ops, a, b)
            key = "%s:%s:%s" % (tag, ops[-1][0], sorted(x for x in a if a[x] != b.get(x)))
        else:
            ops = [x[0] for x in r["tr"]]; what = "%s: %s" % (ops, g); key = "%s:crash:%s" % (tag, json.dumps(ops))
        c.violation(key, what, {"trace": r, "got": g})
    c.sample({"trace": [x[0] for x in jobs[-1][3]["tr"]]})
    c.cov["bounds"] = "exhaustive to depth %s over five operation sets; %d random traces of 40 operations over all operations, 9 objects, 14 handles" % (c.q("3-4", "4-5"), n)


vp.main("C19", check)
