#!/usr/bin/env python3
"""C11: names reach the declaration of the module that an import names; what cannot is refused."""
import collections
import os
import random
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ill
import mods
import prog
import vp


def main():
    c = vp.Check('C11', rule='a case is one program of several files: one whose output is known, compiled and run, or one with a '
                             'wrong import, which has to be refused with an error at its row; distinct by the text of all files',
                 assumptions=['clang 18 is correct', 'the meaning of imports is that written down in lib/mods.py'])
    R = prog.Runner()
    cxy = vp.Cxy('asan')

    def refuse(files, name, row):
        d = cxy.scratch('t')
        for n, t in files.items():
            vp.write(d, n, t)
        r = cxy.codegen(d)
        text = re.sub(r'\x1b\[[0-9;]*m', '', r.text)
        k = vp.crash_key(r)
        if k:
            return 'crash ' + k, text
        if 'Uncaught' in text:
            return 'an exception of the compiler is not caught', text
        if r.rc == 0:
            return 'accepted', text
        if r.rc != 1:
            return 'exit %s' % r.rc, text
        errs = ill.ERR.findall(text)
        if name is None:
            # any of the imports that make up a cycle
            ok = [e for e in errs if re.search(r'imports itself|cycl|circular', e[0])]
            return (None if ok else 'refused, but not for the cycle'), text
        ok = [e for e in errs if e[1].endswith('/' + name) and int(e[2]) == row]
        return (None if ok else 'refused, but without an error at %s:%d' % (name, row)), text

    def one(k):
        if c.left() < 0:
            return k, None
        kind, i = k
        r = c.rng(kind, i)
        info = collections.Counter()
        if kind == 'run':
            P = mods.Program(r)
            lines, exp = P.main()
            files = P.files(lines, header=True)
            info['modules'] = len(P.mods)
            info['imports'] = sum(len(m.imports) for m in P.mods)
            info['declarations'] = sum(len(m.items) for m in P.mods)
            names = collections.Counter(x.name for m in P.mods for x in m.items)
            info['names declared in several modules'] = sum(1 for n in names.values() if n > 1)
            info['diamonds'] = sum(1 for m in P.mods for o in P.mods[:m.i] if sum(1 for x in P.mods[:m.i] if o.i in P.deps[x.i]) > 1)
            info['lines compared'] = len(exp)
            fs = dict(files)
            v, d = prog.judge(R, fs.pop('a.cxy'), exp, files=fs)
            return k, (files, info, None if v == 'held' else v, d)
        if kind == 'chain':
            t, fs, exp = mods.chain(r)
            info['modules'] = len(fs) + 1
            info['lines compared'] = len(exp)
            v, d = prog.judge(R, t, exp, files=fs)
            return k, (dict(fs, **{'a.cxy': t}), info, None if v == 'held' else v, d)
        if kind == 'conditional':
            t, fs, exp, defs = mods.conditional(r)
            info['lines compared'] = len(exp)
            v, d = prog.judge(R, t, exp, files=fs, extra=defs)
            return k, (dict(fs, **{'a.cxy': t, 'options': ' '.join(defs)}), info, None if v == 'held' else v, d)
        if kind == 'long path':
            n = r.choice([4070, 4085, 4090, 4095, 4096, 4097, 4100, 5000, 8192, 20000]) + r.randint(-3, 3)
            p = r.choice(['./' + 'a/' * (n // 2), './' + 'b' * n, 'c' * n, 'd/' * (n // 2) + 'x.cxy', './../' + '../' * (n // 3)])
            files = {'a.cxy': '\nimport "%s" as q\nfunc main() {}\n' % p}
            bad, text = refuse(files, 'a.cxy', 2)
            return k, (files, info, bad, text)
        what, files, name, row = mods.broken(r, kind)
        bad, text = refuse(files, name, row)
        return k, (files, info, bad, text)

    items = [('run', i) for i in range(c.scale(700, 12000))] + [('chain', i) for i in range(c.scale(40, 400))] \
        + [('conditional', i) for i in range(c.scale(60, 600))] + [('long path', i) for i in range(c.scale(40, 300))] \
        + [(k, i) for k in mods.BROKEN for i in range(c.scale(25, 400))]
    c.rng('order').shuffle(items)
    for k, res in vp.pmap(one, items):
        if res is None:
            c.count('skipped for time')
            continue
        files, info, bad, d = res
        text = '\n'.join('--- %s\n%s' % f for f in sorted(files.items()))
        c.case(text, {'kind': k[0], 'files': sorted(files)} if k[1] < 2 and len(text) < 30000 else None)
        c.count('programs run' if k[0] in ('run', 'chain', 'conditional') else 'programs refused')
        c.count('kind ' + k[0])
        for n, v in info.items():
            c.count(n, v)
        if bad:
            d = re.sub(r'\x1b\[[0-9;]*m', '', str(d))
            err = re.search(r'error: (.*)', d)
            key = '%s %s' % (k[0], bad)
            if bad in ('refused', 'cc') and err:
                key += ' ' + re.sub(r"'[^']*'|\d+|`[^`]*`", '_', err.group(1))[:80]
            c.violation(key, '%s program: %s %s' % (k[0], bad, (err.group(1) if bad in ('refused', 'cc') and err else d)[:300]),
                        dict(files, **{'output.txt': d}))
    return c.finish(min_evaluations=c.scale(500, 3000))


vp.main(main)
