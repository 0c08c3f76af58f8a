#!/usr/bin/env python3
"""C10: ill typed programs are refused where they are wrong, well typed ones compile and run."""
import os
import random
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ill
import prog
import vp


def main():
    c = vp.Check('C10', rule='a case is one program: a statement or declaration that is ill typed (or one question about two '
                             'types) placed in a context, given to the compiler, which has to refuse it with an error at its '
                             'row; or its well typed counterpart, which has to compile and print what it prints in main; '
                             'distinct by text',
                 assumptions=['clang 18 is correct', 'the typing rules are those written down in lib/ill.py'])
    R = prog.Runner()
    cxy = vp.Cxy('plain')

    def compile_(files):
        d = cxy.scratch('t')
        for n, t in files.items():
            vp.write(d, n, t)
        r = cxy.codegen(d)
        text = re.sub(r'\x1b\[[0-9;]*m', '', r.text)
        return r, ill.ERR.findall(text), text

    def judge(kind, files, name, row, verdict, what):
        """verdict False: an error at row is wanted; True: none"""
        r, errs, text = compile_(files)
        k = vp.crash_key(r)
        if k:
            return 'crash ' + k, text
        if r.rc not in (0, 1):
            return 'exit %s' % r.rc, text
        if verdict:
            return (None, '') if r.rc == 0 else ('well typed but refused: %s' % (errs[0][0] if errs else '?'), text)
        if r.rc == 0:
            return 'ill typed but accepted', text
        here = [e for e in errs if e[1].endswith(name) and int(e[2]) == row]
        if not here:
            return 'refused, but without an error at %s:%d' % (name, row), text
        return None, ''

    def one(k):
        if c.left() < 0:
            return k, None
        kind, i, arg = k
        r = c.rng(kind, i, arg)
        if kind == 'bad':
            files, name, row, end, ctx = ill.place(r, arg)
            v = False
        elif kind == 'decl':
            files, name, row, end, ctx = ill.place_decl(r, arg)
            v = False
        elif kind == 'gooddecl':
            files, name, row, end, ctx = ill.place_decl(r, arg)
            v = True
        elif kind == 'ask':
            files, name, row, end, ctx, v, func = ill.asked(r)
            arg = ctx
            if v is None:
                return k, None
        elif kind == 'good':
            ctxs = ill.CONTEXTS
            if ill.FLOW.search(arg) and not ('catch' in arg or 'defer' in arg):
                ctxs = [x for x in ctxs if x not in ('closure', 'handler', 'defer')]
            ctx = r.choice(ctxs[1:])
            outs = []
            for x in ('main', ctx):
                files, name, row, end, ctx = ill.place(r, arg, x, quiet=True)
                texts = dict(files)
                o = R.run(files.pop('a.cxy'), files=files)
                outs.append((o.kind, o.out if o.kind == 'ok' else o.detail))
                if o.kind != 'ok':
                    break
            bad = None
            if outs[-1][0] != 'ok':
                bad = 'well typed, but ends with %s in %s' % (outs[-1][0], ctx)
            elif outs[0] != outs[1]:
                bad = 'prints %r in main and %r in %s' % (outs[0][1][:200], outs[1][1][:200], ctx)
            return k, (ctx, arg, texts, bad, str(outs[-1][1]), True)
        bad, text = judge(kind, files, name, row, v, arg)
        return k, (ctx, arg, files, bad, text, v)

    items = [('bad', i, s) for i in range(c.scale(4, 40)) for s in ill.BAD] \
        + [('decl', i, s) for i in range(c.scale(2, 10)) for s in ill.BAD_DECLS] \
        + [('gooddecl', i, s) for i in range(c.scale(2, 8)) for s in ill.GOOD_DECLS] \
        + [('ask', i, '') for i in range(c.scale(3500, 60000))] \
        + [('good', i, s) for i in range(c.scale(1, 15)) for s in ill.GOOD]
    c.rng('order').shuffle(items)
    for k, res in vp.pmap(one, items):
        if res is None:
            c.count('skipped for time' if k[0] != 'ask' else 'not judged')
            continue
        ctx, arg, files, bad, text, v = res
        c.case('\n'.join(files.values()), {'kind': k[0], 'what': arg, 'context': ctx} if k[1] == 0 and len(arg) % 37 == 0 else None)
        c.count('accepted' if v else 'refused')
        c.count({'bad': 'ill typed statements', 'decl': 'ill typed declarations', 'gooddecl': 'declarations', 'ask': 'questions about types',
                 'good': 'statements run in two contexts'}[k[0]])
        c.count('context ' + (ctx if k[0] != 'ask' else ctx.split()[0]))
        if bad:
            c.violation('%s %s' % (k[0], arg), '%s: %s (in %s)' % (arg, bad, ctx), dict(files, **{'output.txt': text}))

    # what is accepted also has to compile in C and run
    def group(g):
        if c.left() < 0:
            return g, 0, None
        r = c.rng('group', g)
        decls = funcs = calls = ''
        n = i = 0
        while n < 25:
            i += 1
            d, f, v, key = ill.ask(r, i)
            if v:
                n += 1
                decls += d
                funcs += f
                calls += ' ask%d();\n' % i
        text = (ill.PRE + decls + funcs).replace('\x01', '') + 'func main() {\n' + calls + ' println("ok");\n}\n'
        return g, n, (text,) + prog.judge(R, text, ['ok'])
    for g, n, res in vp.pmap(group, range(c.scale(24, 400))):
        if res is None:
            continue
        text, v, d = res
        c.case(text)
        c.count('accepted questions compiled and run', n)
        if v != 'held':
            c.violation('group ' + d[:60], 'accepted, but: ' + d[:300], {'a.cxy': text})
    return c.finish(min_evaluations=c.scale(1500, 5000))


vp.main(main)
