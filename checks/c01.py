"""C01: an object lives exactly as long as something refers to it."""
import sys, random
sys.path.insert(0, __import__("os").path.join(__import__("os").path.dirname(__file__), "..", "lib"))
import vp, heapgen
from concurrent.futures import ThreadPoolExecutor

CONF = [
    # tag, kinds, length (quick, thorough), parameters
    ("fields", ["new", "asg", "setf", "getf", "weak", "unweak"], (5, 6), dict(obj=3)),
    ("frames", ["new", "asg", "enter", "exit", "call", "ret", "throw"], (4, 5), dict(obj=2, base=1, globs=("G",), frames=4)),
    ("arrays", ["new", "arr", "asg", "asgr", "sete", "gete", "setl", "getl", "weakl"], (6, 7), dict(obj=3, base=1, fields=(3,))),
    ("any", ["new", "asg", "seto", "geto", "clo", "tmp", "bad"], (4, 5), dict(obj=3, base=2, fields=(1, 4))),
    ("dtors", ["new", "asg", "setf", "enter", "exit", "throw"], (3, 4), dict(obj=3, base=1, classes=("P", "T", "E", "U"), globs=("G", "K"), fields=(1,))),
]


def run(c):
    c.build()
    with ThreadPoolExecutor(3) as ex:
        ms = list(ex.map(lambda x: heapgen.exhaustive(c, x[1], c.q(*x[2]), tag=x[0], **x[3]), CONF))
    for (tag, kinds, ln, par), recs in zip(CONF, ms):
        n, cap = len(recs), c.q(3000, 40000)
        recs = recs if n <= cap else sorted(random.Random(c.seed).sample(recs, cap), key=lambda r: len(r["tr"]))
        heapgen.check(c, recs, par.get("base", 2), False, "H" + tag.capitalize())
    c.sample({"trace": [x[0] for x in recs[-1]["tr"]]})
    recs = heapgen.simulate(c, c.q(900, 12000), 40)
    heapgen.check(c, recs, 2, True, "HSim", per=10)
    heapgen.check(c, recs[:c.q(48, 480)], 2, True, "HPre", per=6, pre=True)
    c.cov["bounds"] = "exhaustive to depth %s over five operation sets; random traces of 40 operations over all operations, 7 objects, 5 frames" % c.q("3-6", "4-7")


vp.main("C01", run)
