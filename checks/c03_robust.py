#!/usr/bin/env python3
"""C03: whatever text it is given, the compiler ends on its own with exit status
0 or 1, without a memory error or undefined behaviour, and a refusal names a
place inside the input.  The address and undefined behaviour sanitizers watch
every run of a build whose memory pools show their allocation boundaries."""
import os
import re
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import corpus
import grid
import vp

# texts whose shape ordinary mutation seldom makes
CRAFTED = [
    b'', b'\n', b'\x00', b'\xef\xbb\xbf', b'"', b"'", b'`', b'/*', b'/* /* */', b'//', b'#', b'#{', b'#!', b'@', b'@[', b'$',
    b'f"${', b'f"${f"${1}"}"', b'f"', b'"\\', b"'\\u", b'"\\x', b"'\\U00110000'", b'"\\U0001F600"', b'0x', b'0b', b'1e', b'1e999',
    b'99999999999999999999999999', b'0xFFFFFFFFFFFFFFFFF', b"var x = '\xf0\x9f\x98\x80'", b"var x = '\xff'", b'var x = "\xff\xfe"',
    b'func', b'func f', b'func f(', b'func f()', b'func f() {', b'func f() =>', b'struct', b'struct S {', b'class C : ', b'class C { func',
    b'enum E {', b'enum E { A = ', b'type T = ', b'type T = T', b'type T = U; type U = T', b'struct S { s: S }', b'class A : A {}',
    b'class A : B {} class B : A {}', b'import', b'import "nosuch.cxy"', b'import "a.cxy"', b'import x from "a.cxy"', b'module', b'module a module b',
    b'var x;', b'var x = x', b'func f() => f()', b'func f(x: auto) => f(x) func main() { f(1) }', b'var a = b; var b = a',
    b'func main() { var x; }', b'func main() { return 1; return "a"; }', b'func main() { break; continue; }', b'func main() { 1 = 2; }',
    b'func main() { var x = 1 / 0; }', b'func main() { println(#{1 / 0}) }', b'func main() { println(#{1 % 0}) }', b'macro M(x) x',
    b'macro M(x) M!(x) func main() { M!(1) }', b'func main() { #if (true) { } #else { } }', b'#if (1) { func main() {} }', b'func main() { #for (const i: 0..0) {} }',
    b'func main() { #for (const i: range(0, 3, 0)) {} }', b'func main(a: i32, a: i32) {}', b'struct S { x: i32 x: i32 }', b'func f() {} func f() {} func main() { f() }',
    b'func main() { match (1) { } }', b'func main() { switch (1) { case 1 => 1 case 1 => 2 } }', b'func main() { var (a, b) = (1); }', b'func main() { var x = [1, "a"]; }',
    b'func main() { var x: [i32, 0] = []; }', b'func main() { var x: [i32, -1]; }', b'func main() { ((((((1)))))) }', b'test', b'test "x" {', b'test "x" { ok!( }',
    b'exception', b'exception E(', b'exception E() => 1', b'func f(): !void { raise 1 }', b'func main() { f() catch }', b'@[link] func', b'extern func f(): i32; func main() { f(1) }',
    b'func main() { asm("nop" : : :) }', b'func main() { var f = () => f(); }', b'func main() { println(this) }', b'struct S { func f() => super.f() }', b'func main() { delete 1; }',
    b'func f[T](x: T) => x func main() { f[i32, i64](1) }', b'struct S[T] { x: T } var s: S', b'func f[T]() => T.name func main() { f() }', b'func main() { println(sizeof!(nosuch)) }',
    b'defer 1', b'func main() { defer defer println(1) }', b'func main() { for (const i: 1) {} }', b'func main() { while {} }', b'func main() { if }', b'import "stdio.h" as c\nfunc main() { c.nosuch() }',
    b'import "nosuch.h" as c', b'func main(args: [string]) { println(args.[', b'interface I { func f(): i32 } class C : I {}', b'interface I { func f(): i32 } func main() { var i: I; i.f(); }',
    b'pub pub func f() {}', b'const x = 1; func main() { x = 2; }', b'func main() { var x = null; x.y.z }', b'func main() { (1, 2).5 }', b'func main() { (1, 2).0.0 }', b'func main() { "abc".[1].[2] }',
]


def crafted(r):
    out = [('crafted/%d' % i, c) for i, c in enumerate(CRAFTED)]
    for n in (3, 8, 14, 60):
        out.append(('nest-paren/%d' % n, b'func main() { var x = ' + b'(' * n + b'1' + b')' * n + b' }'))
        out.append(('nest-block/%d' % n, b'func main() ' + b'{' * n + b'}' * n))
        out.append(('nest-array/%d' % n, b'func main() { var x = ' + b'[' * n + b'1' + b']' * n + b' }'))
        out.append(('nest-type/%d' % n, b'type T = ' + b'(i32, ' * n + b'i32' + b')' * n + b'\nfunc main() { var t: T; }'))
        out.append(('nest-unary/%d' % n, b'func main() { var x = ' + b'-' * n + b'1 }'))
        out.append(('nest-str/%d' % n, b'func main() { println(' + b'f"${' * n + b'1' + b'}"' * n + b') }'))
        out.append(('nest-comment/%d' % n, b'/*' * n + b'*/' * n + b'func main() {}'))
        out.append(('long-ident/%d' % n, b'var ' + b'abcdefgh' * n * 40 + b' = 1'))
        out.append(('long-string/%d' % n, b'func main() { println("' + b'abcdefgh' * n * 40 + b'") }'))
        out.append(('many-args/%d' % n, b'func f(' + b', '.join(b'a%d: i32' % i for i in range(n)) + b') {} func main() { f(' + b', '.join([b'1'] * n) + b') }'))
        out.append(('chain/%d' % n, b'func main() { var x = ' + b' + '.join([b'1`i32'] * n) + b' }'))
    return out


def verdict(src, res):
    """(kind, key): kind is 'ok', 'refused' or 'bad'."""
    k = vp.crash_key(res)
    if k:
        return 'bad', k
    t = res.text
    if res.rc == 0:
        if re.search(r'(?m)^\s*\S? ?Compilation failure', t):
            return 'bad', 'exit 0 but "Compilation failure"'
        return 'ok', None
    if re.search(r'(?m)^\s*\S? ?Compilation success', t):
        return 'bad', 'exit 1 but "Compilation success"'
    return 'refused', None


def diag_place(src, t, path):
    """A diagnostic on the input must point at a line the input has."""
    nlines = src.count(b'\n') + 1
    for m in re.finditer(r'in (\S*?):(\d+):(\d+) \(to (\d+):(\d+)\)', t):
        f, l0, c0, l1, c1 = m.group(1), *map(int, m.groups()[1:])
        if os.path.basename(f) == os.path.basename(path) and not (1 <= l0 <= nlines + 1):
            return 'diagnostic points at line %d of a %d line input' % (l0, nlines)
    return None


def main():
    ck = vp.Check('C03', rule='token, byte and truncation mutants of every .cxy file of the repository and of /verif/corpus, '
                  'crafted texts, and the files themselves, driven to the end of C generation under ASan+UBSan; '
                  'non-trivial: a distinct source text that the compiler read',
                  assumptions=['in-pool overflows are seen because CXY_VP_HOOKS poisons the pools around allocations',
                               'stack exhaustion by nesting deeper than 60 levels is not explored',
                               'a run over 30 s is repeated with 120 s before it counts as a hang; texts with a loop unrolled '
                               'at compile time are then inconclusive'])
    cx = vp.Cxy('asan')
    # own folder name: the compiler's messages hold the path
    files = corpus.repo_files() + corpus.own_files()
    mut = corpus.Mutator(files)
    cases = [('file/' + os.path.basename(f), corpus.read(f)) for f in files]
    cases += crafted(ck.rng('crafted'))

    cells = [c for c in grid.grid()]
    ck.rng('grid').shuffle(cells)
    edge = [c for c in cells if c[0].startswith('grid-')]
    cells = [c for c in cells if not c[0].startswith('grid-')]
    cases += edge + cells[:ck.scale(550, len(cells))]

    def gen(kind, i):
        r = ck.rng(kind, i)
        src, tag = getattr(mut, kind + '_mutant')(r)
        return kind + '/' + str(i) + '/' + tag, src

    for kind, n in (('tokens', ck.scale(1300, 30000)), ('bytes', ck.scale(350, 5000)), ('cut', ck.scale(150, 2500))):
        cases += [(kind, i) for i in range(n)]

    def one(c):
        if isinstance(c[1], int):
            c = gen(*c)
        name, src = c
        if ck.left() < 0:
            return name, src, None
        d = cx.scratch()
        vp.write(d, 'a.cxy', src)
        res = cx.codegen(d, timeout=30)
        if res.timeout:
            res = cx.codegen(d, timeout=120)
        shutil.rmtree(d, True)
        return name, src, res

    skipped = 0
    for name, src, res in vp.pmap(one, cases):
        if res is None:
            skipped += 1
            continue
        kind, key = verdict(src, res)
        ck.count('runs ' + kind)
        ck.count('workload ' + name.split('/')[0])
        for m in set(re.findall(r'\b(error|warning): ([a-z` ]{6,30})', res.text)):
            ck.count('diagnostics ' + m[0])
        ck.case(src if kind != 'bad' else None, {'case': name, 'verdict': kind, 'head': src[:80].decode('utf8', 'replace')}
                if name.startswith(('tokens', 'bytes')) else None)
        if kind == 'bad':
            if key == 'hang' and b'#for' in src:
                continue
            ck.violation(key, 'case %s: exit %s\n%s' % (name, res.rc, res.text[-2500:]), {'a.cxy': src})
            continue
        bad = diag_place(src, res.text, 'a.cxy')
        if bad:
            ck.violation('diagnostic outside the input', 'case %s: %s\n%s' % (name, bad, res.text[-1500:]), {'a.cxy': src})
    ck.count('skipped for time', skipped)
    ck.finish(min_evaluations=300)


vp.main(main)
