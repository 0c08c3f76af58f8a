#!/usr/bin/env python3
"""C08: deferred statements run once on every way out; what is raised is what arrives."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import exc
import prog
import vp

UNCAUGHT = '''exception E0(m: String) => m != null ? m.str() : ""
func f(k: i32): !i32 { defer println("d", k); if (k > 1`i32) raise E0("boom".S); return k }
func main(): !void { defer println("main out"); println(f(1`i32)); println(f(2`i32)); println("never"); }
'''


def main():
    c = vp.Check('C08', rule='a case is one program of raising functions, handlers and deferred statements whose complete '
                             'trace was compared with the model of the same program, run under the address sanitizer and '
                             'the leak detector; distinct by program text',
                 assumptions=['clang 18 and its sanitizers are correct',
                              'exceptions are raised by functions, methods and generic functions (closures that raise are refused)'])
    R = prog.Runner(leaks=True)

    def one(k):
        if c.left() < 0:
            c.count('skipped for time')
            return
        if k == 'uncaught':
            o = R.run(UNCAUGHT)
            c.case(UNCAUGHT)
            if o.kind != 'app' or o.out != 'd1\n1\nd2\nmain out\n' or 'boom' not in o.detail:
                c.violation('uncaught', 'an exception nobody handles: %s, output %r, %s' % (o.kind, o.out, o.detail),
                            {'a.cxy': UNCAUGHT})
            return
        if isinstance(k, tuple):
            name, text, exp = k
        else:
            name, (text, exp) = None, exc.make(c.rng('exc', k))
        v, d = prog.judge(R, text, exp)
        c.case(text, {'program': text[-700:], 'trace': exp[:30]} if k in (0, 1) else None)
        if v == 'held':
            c.count('programs')
            c.count('trace events compared', len(exp))
            c.count('deferred statements in the text', text.count('defer '))
            c.count('handlers in the text', text.count(' catch '))
            return
        c.violation(name or v, '%s (%s)\n%s' % (v, name or 'program %d' % k, d), {'a.cxy': text, 'expected.txt': '\n'.join(exp)})

    for _ in vp.pmap(one, ['uncaught'] + prog.cases('C08') + list(range(c.scale(900, 9000)))):
        pass
    c.finish(min_evaluations=100)


vp.main(main)
