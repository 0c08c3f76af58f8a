#!/usr/bin/env python3
"""C06: aggregates, objects, closures, generics, unions and operators behave as
the language defines them."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import frag
import prog
import vp

# recorded defects (known-findings.txt) and their neighbours that work
DIRECTED = [('grandchild', '''
class A { x: i32; func `init`(x: i32) { this.x = x; } virtual func id(): i32 => x + 1`i32 }
class B : A { func `init`(x: i32) { super(x); } func id(): i32 => x + 2`i32 }
class C : B { func `init`(x: i32) { super(x); } func id(): i32 => x + 3`i32 }
func show(a: A) { println(a.id()); }
func main() { show(A(10`i32)); show(B(10`i32)); show(C(10`i32)); }
''', ['11', '12', '13']), ('self-optional', '''
class N { id: i64; next: N? = null; func `init`(i: i64) { id = i; } }
func main() { var a = N(1`i64); var b = N(2`i64); b.next = a; if (var x = b.next) println((*x).id); }
''', ['1']), ('inherited-fields', '''
class A { x: i32; func `init`() { x = 4; } func f() => x }
class B : A { y: i32; func `init`() { super(); y = 6; } func g() => x + f() }
class C : B { z: i32; func `init`() { super(); z = 9; } func h() => x + f() + g() }
class D : C { func `init`() { super(); } func k() => x + y * 10`i32 + z * 100`i32 }
func main() { var d = D(); println(d.k(), " ", d.h(), " ", d.g()); d.x = 1; d.z = 2; println(d.k(), " ", d.g()); }
''', ['964 16 8', '261 2']), ('methods-in-closures', '''
class A { n: i32; func `init`(n: i32) { this.n = n; } const func m(x: i32) => n + x  func m() => n  @static func st(x: i32) => x * 2
 func k() { var g = () => { return m() + st(3) + m(2); }; return g(); }
 func c() { m(); var g = () => { var h = () => m() * 2; return h() + m(1); }; return g(); }
 func gen[T](x: T): T => x
 func gg() { var g = () => gen[i32](4) + n; return g(); }
 func `..`() { var i = 0; return (): i32? => { if (i < n) return i++; return null; } }
}
struct S { n: i32; func m() => n  func k() { var g = () => m() + 1; return g(); } const func kk() { var g = () => n + 1; return g(); }}
func apply(f: func(x: i32) -> i32) => f(3)
class B : A { func `init`(n: i32) { super(n); } func z() => apply((x: i32) => m(x) + n)  func y() { var f = () => apply((x: i32) => m(x) + m()); return f(); } }
class C : A { func `init`(n: i32) { super(n); } func z() { var g = (x: i32) => { var k = (y: i32) => n + x + y + super.n; return k(3); }; return g(2); }
 func `..`() { var i = 0; return (): i32? => { if (i < n) { i++; return i * i; } return null; } } }
func main() { println(A(3).k()); println(A(3).c()); println(B(3).z()); println(B(3).y()); var s = S{n: 4}; println(s.k(), s.kk()); println(A(2).gg());
  println(C(3).z()); for (const x: A(2)) println("a", x); for (const x: B(2)) println("b", x); var c = C(2); for (const x: c) println("c", x);
  var t = String("hi"); for (const c, i: t) println(i, c); }
''', ['14', '10', '9', '9', '55', '6', '11', 'a0', 'a1', 'b0', 'b1', 'c1', 'c4', '0h', '1i']), ('members-of-calls', '''
struct P { a: i32; t: (i32, (i32, bool)); }
struct Q { p: P; func get(): P => p }
func mk(): Q => Q{p: P{a: 3, t: (1`i32, (2`i32, true))}}
func main() {
  var t = (P{a: 1, t: (5`i32, (6`i32, false))}, mk());
  println(t.0.a, " ", t.1.p.a, " ", t.1.p.t.1.0, " ", t.1.get().t.1.1, " ", mk().p.t.1.0, " ", mk().get().a);
  t.1.p.t.1.0 = 77`i32; println(t.1.get().t.1.0, " ", t.0.t.1.0);
  var m = [[1`i32, 2`i32], [3`i32, 4`i32]]; m.[1].[0] = 9`i32; println(m.[1].[0] + m.[0].[1]);
}
''', ['1 3 2 true 2 3', '77 6', '11'])]


def main():
    c = vp.Check('C06', rule='a case is one generated program (one to three histories of operations) whose complete output '
                             'was compared with the model that executed the same history; distinct by program text',
                 assumptions=['clang 18 compiles the generated C correctly',
                              'histories use the constructs in the form the generator knows to be accepted'])
    R = prog.Runner()
    n = c.scale(650, 8000)

    def one(k):
        if c.left() < 0:
            c.count('skipped for time')
            return
        if isinstance(k, tuple):
            name, text, exp = k
        else:
            text, exp = frag.build(c.rng('frag', k))
            name = 'prog%d' % k
        v, d = prog.judge(R, text, exp)
        c.count('output lines compared', len(exp) if v == 'held' else 0)
        c.case(text, {'program': text[:600], 'output': exp[:5]} if k in (0, 1) else None)
        if v == 'held':
            c.count('programs')
            return
        what = {'output': 'wrong output', 'refused': 'a valid program is refused', 'cc': 'the generated C does not compile',
                'crash': 'the compiler crashes', 'app': 'the program ends abnormally'}[v]
        c.violation(name if isinstance(k, tuple) else v, '%s (%s)\n%s' % (what, name, d),
                    {'a.cxy': text, 'expected.txt': '\n'.join(exp) + '\n'})

    for _ in vp.pmap(one, DIRECTED + prog.cases('C06') + list(range(n))):
        pass
    c.finish(min_evaluations=min(150, n))


vp.main(main)
