#!/usr/bin/env python3
"""C09: what the compiler evaluates is what the program would have computed."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ct
import prog
import vp


def main():
    c = vp.Check('C09', rule='a case is one program whose compile time constants, conditions, loops, macros and questions '
                             'about types were evaluated by the compiler and printed by the compiled program, compared '
                             'with a model of the same program; distinct by program text and definitions',
                 assumptions=['clang 18 is correct', 'what the compiler documents as compile time is the subset of lib/ct.py'])
    R = prog.Runner()

    def one(k):
        if c.left() < 0:
            c.count('skipped for time')
            return
        if len(k) == 3:
            name, text, exp = k
            args = []
        else:
            name = None
            text, exp, args = getattr(ct, k[0])(c.rng(k[0], k[1]))
        v, d = prog.judge(R, text, exp, extra=args)
        c.case(text + ' '.join(args), {'program': text[-900:], 'output': exp[:30]} if k[1] == 0 else None)
        if v == 'held':
            c.count('programs')
            c.count('values compared', len(exp))
            for w in ('#const', '#{', '#if', '#for', 'sizeof!', 'has_member!', 'macro ', 'is_base_of!'):
                c.count('%s in the text' % w.strip(), text.count(w))
            return
        c.violation(name or v, '%s (%s)\n%s' % (v, name or '%s %d' % k, d),
                    {'a.cxy': text, 'expected.txt': '\n'.join(exp), 'arguments.txt': ' '.join(args)})

    n, m = c.scale(420, 5000), c.scale(160, 1600)
    for _ in vp.pmap(one, prog.cases('C09') + [('make', i) for i in range(n)] + [('reflect', i) for i in range(m)]):
        pass
    c.finish(min_evaluations=100)


vp.main(main)
