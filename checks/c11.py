#!/usr/bin/env python3
"""C11: precompiled equals interpreted.  Random programs and nests of Lang.tla are run wholly precompiled and with a random
half of their classes precompiled; the observations must be the specification's and, line by line, those of the VM."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, langcheck, langnest


def run(c):
    c.build()
    ps = langcheck.generate(c, c.q(70, 900), c.seed, {}, size=(15, 40), nmeth=(2, 5), prefix="PA")
    ps += langnest.programs(3, "PN_", per=30, stride=c.q(41, 3), offset=c.seed)
    ps += langnest.switches(c, c.q(6, 60), "PS")
    langcheck.check_programs(c, ps, "pre", exact=True, timeout=c.q(200, 1800))
    ps = langcheck.generate(c, c.q(50, 900), c.seed, {"exc": 1.0}, size=(15, 40), nmeth=(3, 6), prefix="PB")
    langcheck.check_programs(c, ps, "mix", exact=True, timeout=c.q(200, 1800))
    c.sample({"programs": len(ps)})


vp.main("C11", run)
