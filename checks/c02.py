"""C02: weak references."""
import sys, random
sys.path.insert(0, __import__("os").path.join(__import__("os").path.dirname(__file__), "..", "lib"))
import vp, heapgen
from concurrent.futures import ThreadPoolExecutor

CONF = [
    ("weak", ["new", "asg", "setf", "getf", "weak", "unweak"], (5, 6), dict(obj=2, base=2, fields=(1, 2))),
    ("deep", ["newf", "new", "asg", "setff", "weakff", "weak", "getf"], (5, 6), dict(obj=3, base=1, fields=(1, 2))),
    ("scopes", ["new", "setf", "weak", "enter", "exit", "tmp", "throw"], (5, 6), dict(obj=2, base=1, fields=(1,), globs=("G",), frames=3)),
    ("kinds", ["new", "arr", "setl", "weakl", "seto", "weak", "unweak", "asg"], (5, 6), dict(obj=2, base=1, fields=(3, 4))),
    ("dtors", ["new", "asg", "setf", "weak"], (4, 5), dict(obj=3, base=2, classes=("P", "T", "U"), globs=("K",), fields=(1,))),
]
SIM = ["new", "newf", "asg", "setf", "getf", "setff", "weak", "unweak", "weakff", "weakl", "setl", "arr", "seto", "tmp", "bad", "enter", "exit", "call", "ret", "throw"]


def run(c):
    c.build()
    with ThreadPoolExecutor(3) as ex:
        ms = list(ex.map(lambda x: heapgen.exhaustive(c, x[1], c.q(*x[2]), tag=x[0], **x[3]), CONF))
    for (tag, kinds, ln, par), recs in zip(CONF, ms):
        n, cap = len(recs), c.q(3000, 40000)
        recs = recs if n <= cap else sorted(random.Random(c.seed).sample(recs, cap), key=lambda r: len(r["tr"]))
        heapgen.check(c, recs, par.get("base", 2), False, "W" + tag.capitalize())
    c.sample({"trace": [x[0] for x in recs[-1]["tr"]]})
    # many weak references to few objects, fewer and more slots than one back reference block
    recs = heapgen.simulate(c, c.q(600, 9000), 40, kinds=SIM, tag="wsim")
    recs += heapgen.simulate(c, c.q(240, 2400), 60, kinds=["newf", "new", "setf", "weak", "weak", "unweak", "weakff", "getf"], obj=12, frames=1, classes=("P",), fields=(1, 2), tag="many")
    heapgen.check(c, recs, 2, True, "WSim", per=10)
    heapgen.check(c, recs[:c.q(30, 300)] + recs[-c.q(12, 100):], 2, True, "WPre", per=6, pre=True)
    c.cov["bounds"] = "exhaustive to depth %s over five operation sets; random traces of 40-60 operations, up to 12 objects" % c.q("4-5", "5-6")


vp.main("C02", run)
