#!/usr/bin/env python3
"""C05: scalar code means what the language says, on every executed path."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import gen
import prog
import vp

# operands, arguments and conditions are evaluated only when they are reached
DIRECTED = [('''
func f(p: i32): bool { println("f ", p); return p > 3`i32; }
func k(x: i32): i32 => x + 1`i32
func g(x: i32): i32 { if (x > 0`i32) return k(10`i32 / x); return 7`i32; }
func main() {
  var w: i32 = %d;
  if (w != 0`i32) println(k(100`i32 / w));
  println(g(w));
  println((w != 0`i32) && f(100`i32 / w));
  println((w == 0`i32) || f(100`i32 / w));
  println((w != 0`i32) ? k(100`i32 / w) : k(w + 2`i32));
  if (w == 0`i32) println("zero");
  else if (f(100`i32 / w)) println("big");
  else if (f(200`i32 / w) && (w > 0`i32)) println("mid");
  else println("small");
  while (w < k(w - 3`i32) || f(w + 1`i32)) { w -= 2`i32; if (w < -4`i32) break; }
  println(w);
  while (w != 0`i32 && k(100`i32 / w) != 0`i32) { w = w + ((w < 0`i32) ? 1`i32 : -1`i32); }
  println(w);
}
''', 'cond')]


def cond_model(w):
    out = []
    div = lambda a, b: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    b = lambda v: 'true' if v else 'false'

    def f(p):
        out.append('f %d' % p)
        return p > 3
    k = lambda x: x + 1
    g = lambda x: k(div(10, x)) if x > 0 else 7
    if w != 0:
        out.append(str(k(div(100, w))))
    out.append(str(g(w)))
    out.append(b(w != 0 and f(div(100, w))))
    out.append(b(w == 0 or f(div(100, w))))
    out.append(str(k(div(100, w)) if w else k(w + 2)))
    if w == 0:
        out.append('zero')
    elif f(div(100, w)):
        out.append('big')
    elif f(div(200, w)) and w > 0:
        out.append('mid')
    else:
        out.append('small')
    while w < k(w - 3) or f(w + 1):
        w -= 2
        if w < -4:
            break
    out.append(str(w))
    while w != 0 and k(div(100, w)) != 0:
        w += 1 if w < 0 else -1
    out.append(str(w))
    return out


def main():
    c = vp.Check('C05', rule='a case is one generated program whose complete output was compared with the '
                             'independent evaluator; distinct by program text',
                 assumptions=['clang 18 compiles the generated C correctly', 'programs whose C meaning is '
                              'undefined or unspecified (overflow, order of operands with effects) are not generated'])
    R = prog.Runner()
    n = c.scale(700, 12000)

    def one(k):
        if c.left() < 0:
            c.count('skipped for time')
            return
        if isinstance(k, tuple):
            text, exp, name = DIRECTED[0][0] % k[1], cond_model(k[1]), 'cond%d' % k[1]
        else:
            text, exp, g = gen.generate(c.rng('prog', k), gen.make_scalar)
            name = 'prog%d' % k
        v, d = prog.judge(R, text, exp)
        c.count('output lines compared', len(exp) if v == 'held' else 0)
        c.case(text, {'program': text[:400], 'output': exp[:5]} if k in (0, 1) else None)
        if v == 'held':
            c.count('programs')
            return
        what = {'output': 'wrong output', 'refused': 'a valid program is refused', 'cc': 'the generated C does not compile',
                'crash': 'the compiler crashes', 'app': 'the program ends abnormally'}[v]
        c.violation(v + ('/' + d.split('\n')[0][:60] if v == 'crash' else ''), '%s (%s)\n%s' % (what, name, d),
                    {'a.cxy': text, 'expected.txt': '\n'.join(exp) + '\n'})

    for _ in vp.pmap(one, [('cond', w) for w in (0, 1, 2, 5, 7, -3, 40, 150)] + list(range(n))):
        pass
    c.finish(min_evaluations=min(200, n))


vp.main(main)
