#!/usr/bin/env python3
"""C12: strings hold and yield exactly the bytes they were given; printing a value
of any type gives its documented text, through every stream."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import coll
import fmt  # noqa: F401  (registers a maker)
import prog
import strs  # noqa: F401
import vp


def main():
    c = vp.Check('C12', rule='a case is one history of operations on three strings, or one program that prints random nested '
                             'values in every way; distinct by the complete expected output, every line of which was compared',
                 assumptions=['clang 18 and its sanitizers are correct', 'the C library prints %g, %lld and %llu correctly'])
    coll.check(c, prog.Runner(leaks=True), ['strings', 'values', 'values'], c.scale(330, 4000), 20)
    c.finish(min_evaluations=300)


vp.main(main)
