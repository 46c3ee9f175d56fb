#!/usr/bin/env python3
"""C03: exceptions.  Lang.tla gives the observations ($@, eval_error_id, log, destructors) of nests of eval, calls and
loops and of random programs; CallDepth.tla those of deep recursion."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, langcheck, langnest, langtables


def run(c):
    c.build()
    langtables.depth(c, c.q(30, 400))
    EXC = {"exc": 1.0, "guard": 1.0}
    con = ["eval", "call", "for", "while", "sw", "if", "blk"]
    lv = ["die", "rt", "none", "ret"]
    ps = []
    for d in (1, 2, 3):
        ps += langnest.programs(d, "E%d_" % d, con=con, leaves=lv)
    ps += langnest.programs(4, "E4_", con=["eval", "call", "for", "each", "blk"], leaves=["die", "rt"], stride=c.q(4, 1), offset=c.seed)
    if c.thorough():
        ps += langnest.programs(5, "E5_", con=["eval", "call", "for", "swdef"], leaves=["die", "rt"], stride=3, offset=c.seed)
    ps += langcheck.generate(c, c.q(500, 8000), c.seed, EXC, size=(15, 45), nmeth=(2, 6), prefix="EX")
    langcheck.check_programs(c, ps, "vm", timeout=c.q(200, 2400))
    pre = langnest.programs(3, "EP_", con=["eval", "call", "for"], leaves=["die", "rt"], stride=c.q(4, 1)) + langcheck.generate(c, c.q(24, 400), c.seed, EXC, prefix="EY")
    langcheck.check_programs(c, pre, "mix", timeout=c.q(200, 1200))
    c.sample({"nest": "eval > call > for, die in round 1", "programs": len(ps)})


vp.main("C03", run)
