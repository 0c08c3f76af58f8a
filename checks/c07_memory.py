#!/usr/bin/env python3
"""C07: objects are destroyed exactly once, in time and never while in use."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import own
import prog
import vp

R_ = '''class R { id: i64; func `init`(n: i64) { id = n; println("+", id); } func `deinit`() { println("-", id); } func get(): i64 => id }
'''
# exact traces; the recorded defects (known-findings.txt) among their neighbours
DIRECTED = [
    ('closure-borrow', R_ + '''
func main() { var r = R(1`i64); var f = () => r.id; r = R(2`i64); println(f()); }''',
     ['+1', '+2', '1', '-1', '-2']),
    ('array-drop', R_ + '''
func main() { var a = [R(1`i64), R(2`i64)]; println(a.[1].id); }''', ['+1', '+2', '2', '-1', '-2']),
    ('closure', R_ + '''
func call(f: func() -> i64): i64 => f()
func main() { var r = R(1`i64); println(call(() => r.id)); { var q = R(2`i64); var f = () => q.id + r.id; println(f()); } println("end"); }''',
     ['+1', '1', '+2', '3', '-2', 'end', '-1']),
    ('loop-moves', R_ + '''
func a() { var x = R(1`i64); var y = &&x; for (const i: 0..3) { x = R(i + 10`i64); println("it"); } println(y.id); delete y; println("end"); }
func b(): i64 { var x = R(2`i64); delete x; for (const i: 0..3) { if (i == 2`i64) return i; x = R(i + 20`i64); println("it"); } return 0`i64; }
func c(z: R): i64 { for (const i: 0..3) { if (i == 2`i64) { return i; } delete z; z = R(i + 30`i64); println(z.id); } return 0`i64; }
func main() { a(); b(); c(R(5`i64)); println("done"); }''',
     '+1 +10 it +11 -10 it +12 -11 it 1 -1 end -12 +2 -2 +20 it +21 -20 it -21 +5 -5 +30 30 -30 +31 31 -31 done'.split()),
]


def sorted_runs(lines):
    """destructions between two other lines in any order"""
    out, run = [], []
    for l in lines + [None]:
        if l is not None and l[:1] == '-':
            run.append(l)
            continue
        out += sorted(run)
        run = []
        if l is not None:
            out.append(l)
    return out


def main():
    c = vp.Check('C07', rule='a case is one generated program whose construction and destruction trace was compared with '
                             'the reachability model, run under the address sanitizer and the leak detector; distinct by program text',
                 assumptions=['clang 18 and its sanitizers are correct',
                              'histories hold no reference cycles (they leak by design of reference counting)',
                              'the order among objects that go at the same statement is not specified'])
    R = prog.Runner(leaks=True)
    n = c.scale(620, 8000)

    def one(k):
        if c.left() < 0:
            c.count('skipped for time')
            return
        if isinstance(k, tuple):
            name, text, exp = k
            o = R.run(text)
            got = o.out.split('\n')[:-1]
            bad = None
            if o.kind in ('refused', 'cc', 'crash'):
                bad = o.detail
            elif sorted_runs(got) != sorted_runs(exp):
                bad = 'expected %r, got %r' % (exp, got)
            elif o.kind != 'ok':
                bad = o.detail
            c.case(text)
            if bad:
                c.violation(name, '%s: %s' % (name, bad), {'a.cxy': text})
            return
        text, trace = own.build(c.rng('own', k))
        o = R.run(text)
        kind, what = o.kind, ''
        if kind in ('ok', 'app'):
            w = own.judge(o.out, trace)
            if w:
                kind, what = 'trace', w
            if o.kind == 'app':
                what += '\n' + o.detail
        else:
            what = o.detail
        c.case(text, {'program': text[len(own.PRE):][:700], 'trace': o.out.split('\n')[:30]} if k < 2 else None)
        if kind == 'ok':
            c.count('programs')
            c.count('objects followed from construction to destruction', o.out.count('\n+') + (o.out[:1] == '+'))
            c.count('points where the reachable set was known', sum(1 for e in trace if e[0] == 'live'))
            return
        c.violation(kind, '%s (program %d)\n%s' % (kind, k, what), {'a.cxy': text, 'output.txt': o.out})

    for _ in vp.pmap(one, DIRECTED + prog.cases('C07') + list(range(n))):
        pass
    c.finish(min_evaluations=min(150, n))


vp.main(main)
