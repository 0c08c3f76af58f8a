#!/usr/bin/env python3
"""C13: HashMap and HashSet behave as finite maps and sets through any history."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import coll
import prog
import vp


def main():
    c = vp.Check('C13', rule='a case is one pseudo-random history of one instance of HashMap or HashSet, executed by a compiled '
                             'program under AddressSanitizer, every answer of which equalled the model of the same history; '
                             'distinct by instance and trace',
                 assumptions=['clang 18 compiles the generated C correctly', 'keys are compared and hashed consistently'])
    n = c.scale(400, 6000)
    coll.check(c, prog.Runner(leaks=True), ['hashmap', 'hashmap', 'hashset'], n, c.scale(60, 150))
    c.finish(min_evaluations=1000)


vp.main(main)
