#!/usr/bin/env python3
"""C01: the same sources and options give the same result, byte for byte."""
import os
import re
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import corpus
import vp

# what varies between two runs of the same compilation: address space layout
# (random by default), contents of fresh heap memory, size of the environment
# (stack position), allocator thresholds, time
ENVS = [
    {},
    {'MALLOC_PERTURB_': '85', 'VP_PAD': 'x' * 3011},
    {'MALLOC_PERTURB_': '170', 'VP_PAD': 'y' * 40000, 'TZ': 'Asia/Tokyo'},
    {'MALLOC_PERTURB_': '1', 'MALLOC_TOP_PAD_': '1048576', 'MALLOC_ARENA_MAX': '1'},
    {'MALLOC_MMAP_THRESHOLD_': '256', 'MALLOC_PERTURB_': '254', 'VP_PAD': 'z' * 100},
    {'VP_PAD': 'w' * 70001, 'HOME': '/nonexistent', 'COLUMNS': '40'},
]
NOISE = re.compile(r'^\s*(memory|duration|clang took|.*\d+ ms).*$', re.M)


def clean(text, d):
    return NOISE.sub('', text.replace(d, '<cwd>'))


def main():
    c = vp.Check('C01', rule='a case is one program with one output kind (generated C, diagnostics, AST dump) '
                             'whose repeats were all compared; distinct by content of the output',
                 assumptions=['address space layout randomisation is on', 'runs differ in heap fill, environment '
                              'size, allocator tuning and working directory; the clock is not moved'])
    cxy = vp.Cxy('plain')
    progs = [(os.path.relpath(f, vp.REPO if f.startswith(vp.REPO) else vp.VERIF), f, corpus.read(f))
             for f in corpus.own_files() + corpus.repo_files(60000)]
    try:
        import gen
        for k in range(c.scale(24, 300)):
            r = c.rng('gen', k)
            progs.append(('gen%d' % k, None, gen.program(r).encode()))
    except ImportError:
        pass
    mut = corpus.Mutator(corpus.own_files() + corpus.repo_files(6000))
    for k in range(c.scale(60, 1500)):
        t = mut.tokens_mutant(c.rng('mut', k))
        progs.append(('mutant%d' % k, None, t[0] if isinstance(t, tuple) else t))
    reps = c.scale(5, 12)

    def one(p):
        name, path, text = p
        if c.left() < 0:
            c.count('skipped for time')
            return
        d = cxy.scratch('det')
        kinds = ['Codegen'] + (['dump'] if c.rng('dump', name).random() < .4 else [])
        for kind in kinds:
            seen = {}
            runs = c.rng('order', name, kind).sample(range(1, len(ENVS)), min(reps, len(ENVS)) - 1)
            for i, e in enumerate([0, 0] + [runs[j % len(runs)] for j in range(reps - 2)]):
                # every other repeat runs in another folder of the same depth
                w = os.path.join(d, 'aa' if i % 2 == 0 else 'bb')
                os.makedirs(w, exist_ok=True)
                if path:
                    src = path
                else:
                    src = 'a.cxy'
                    vp.write(w, src, text)
                for f in ('app.c',):
                    if os.path.exists(os.path.join(w, f)):
                        os.unlink(os.path.join(w, f))
                extra = ['--dump-ast', 'CXY'] if kind == 'dump' else []
                last = c.rng('last', name).choice(['Bind', 'TypeCheck', 'MemoryMgmt']) if kind == 'dump' else 'Codegen'
                res = vp.run(cxy.cmd('dev', '--last-stage', last, *cxy.opts(), *extra, src), cwd=w,
                             env={**cxy.env, **ENVS[e]}, timeout=60)
                if res.timeout or res.rc not in (0, 1):
                    c.count('runs without an ordinary end')     # judged by C03
                    seen = None
                    break
                c.count('runs')
                out = ''
                if os.path.exists(os.path.join(w, 'app.c')):
                    out = open(os.path.join(w, 'app.c'), errors='replace').read()
                state = ('exit %d\n' % res.rc) + clean(res.text, w) + '\n=====\n' + out.replace(w, '<cwd>')
                seen.setdefault(state, []).append((i, ENVS[e]))
            if seen is None:
                continue
            first = next(iter(seen))
            c.count('outputs ' + ('dump' if kind == 'dump' else 'C' if first.startswith('exit 0') else 'diagnostics'))
            c.case((first,), {'program': name, 'kind': kind, 'runs': reps, 'bytes': len(first)})
            if len(seen) > 1:
                a, b = list(seen)[:2]
                import difflib
                diff = '\n'.join(list(difflib.unified_diff(a.splitlines(), b.splitlines(), lineterm='', n=1))[:40])
                c.violation('nondeterministic %s %s' % (kind, re.sub(r'\d+$', '', name) if path is None else name),
                            '%s: %d different outputs in %d runs\n%s' % (name, len(seen), reps, diff),
                            {'a.cxy': text, 'out1.txt': a, 'out2.txt': b})
        shutil.rmtree(d, True)

    for _ in vp.pmap(one, progs):
        pass
    c.finish(min_evaluations=60)


vp.main(main)
