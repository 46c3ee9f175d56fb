#!/usr/bin/env python3
"""C04: order of execution.  Lang.tla gives the observations of every nest of control constructs and of random programs;
Cond.tla those of condition evaluation; the interpreted and precompiled programs must show the same."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, langcheck, langnest, langtables

def run(c):
    c.build()
    langtables.cond(c, c.q(200, 3000))
    CTL = {"exc": 0.25, "guard": 1.0}
    ps = langnest.switches(c, c.q(40, 400))
    for d in (1, 2):
        ps += langnest.programs(d, "N%d_" % d)
    ps += langnest.programs(3, "N3_", stride=c.q(3, 1), offset=c.seed)
    if c.thorough():
        ps += langnest.programs(4, "N4_", stride=19, offset=c.seed)
    ps += langcheck.generate(c, c.q(500, 6000), c.seed, CTL, size=(20, 60), prefix="CT")
    langcheck.check_programs(c, ps, "vm", timeout=c.q(200, 2400))
    pre = langnest.switches(c, c.q(6, 40), "SP") + langnest.programs(2, "NP_", stride=c.q(12, 1), offset=c.seed) + langcheck.generate(c, c.q(24, 300), c.seed, CTL, prefix="CP")
    langcheck.check_programs(c, pre, "mix", exact=False, timeout=c.q(200, 1200))
    c.sample({"nest": "for > switch > while, next in round 1", "programs": len(ps)})


vp.main("C04", run)
