#!/usr/bin/env python3
"""C14: Vector, List and Trie behave as sequences and string maps through any history."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import coll
import prog
import vp


def main():
    c = vp.Check('C14', rule='a case is one pseudo-random history of one instance of Vector, List or Trie, executed by a compiled '
                             'program under AddressSanitizer, every answer of which equalled the model of the same history; '
                             'distinct by instance and trace',
                 assumptions=['clang 18 compiles the generated C correctly', 'a node is pushed to one List at a time'])
    n = c.scale(400, 6000)
    coll.check(c, prog.Runner(leaks=True), ['vector', 'vector', 'vector', 'list', 'trie'], n, c.scale(60, 150))
    c.finish(min_evaluations=1000)


vp.main(main)
