"""Compiles and runs generated programs, compares with the oracle."""
import os
import shutil

import gen
import vp

APP_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:handle_abort=1:detect_stack_use_after_return=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'ASAN_SYMBOLIZER_PATH': '/usr/lib/llvm-18/bin/llvm-symbolizer',
}


class Outcome:
    def __init__(self, kind, detail, out='', c=''):
        self.kind, self.detail, self.out, self.c = kind, detail, out, c


class Runner:
    def __init__(self, san=True, opt=None, leaks=False):
        self.cxy = vp.Cxy('plain')
        flags = vp.ASAN_CC if san else '-O1'
        if opt:
            flags = flags.replace('-O1', opt)
        self.shim = vp.cc_shim('san' if san else 'plain', flags)
        self.env = dict(APP_ENV)
        if leaks:
            self.env['ASAN_OPTIONS'] = self.env['ASAN_OPTIONS'].replace('detect_leaks=0', 'detect_leaks=1')

    def run(self, text, files=None, args=(), timeout=20, extra=(), cmd='build', stdin=None):
        """Outcome kinds: refused, crash (compiler), cc (C compiler refuses),
        app (abnormal end of the program), ok."""
        d = self.cxy.scratch('p')
        try:
            vp.write(d, 'a.cxy', text)
            for n, t in (files or {}).items():
                vp.write(d, n, t)
            r = self.cxy.build(d, shim=self.shim, extra=extra, cmd=cmd)
            k = vp.crash_key(r)
            if k:
                return Outcome('crash', k + '\n' + r.text[-1500:])
            if r.rc:
                kind = 'cc' if 'compile command failed' in r.text else 'refused'
                return Outcome(kind, r.text[-2500:])
            app = os.path.join(d, 'app')
            if not os.path.exists(app):
                return Outcome('cc', 'no executable was made\n' + r.text[-1500:])
            x = vp.run(['./app'] + list(args), cwd=d, env=self.env, timeout=timeout, stdin=stdin, fsize=4000000)
            out = x.out.decode('utf-8', 'replace')
            if x.timeout:
                return Outcome('app', 'timeout', out)
            if x.rc != 0:
                return Outcome('app', 'exit %d\n%s' % (x.rc, trim(x.err.decode('utf-8', 'replace'))), out)
            return Outcome('ok', x.err.decode('utf-8', 'replace')[-500:], out)
        finally:
            shutil.rmtree(d, True)


def trim(err):
    """a sanitizer's report without its memory map"""
    return err[-2500:] if 'Sanitizer' not in err else err.split('\nShadow bytes')[0][:3500]


def judge(runner, text, expected, **kw):
    """(verdict, detail): held, or what went wrong."""
    o = runner.run(text, **kw)
    if o.kind == 'ok':
        got = o.out.split('\n')
        if got and got[-1] == '':
            got.pop()
        if got == expected:
            return 'held', ''
        for i in range(max(len(got), len(expected))):
            a = expected[i] if i < len(expected) else '<end>'
            b = got[i] if i < len(got) else '<end>'
            if a != b:
                return 'output', 'line %d: expected %r, got %r' % (i + 1, a, b)
    return o.kind, o.detail


def reduce(runner, g, verdict, budget=300, match=None):
    """Smaller program with the same verdict (for triage)."""
    def bad():
        nonlocal budget
        budget -= 1
        if budget < 0:
            return False
        try:
            exp = g.run()
            text = g.text()
        except Exception:
            return False
        v, d = judge(runner, text, exp)
        return v == verdict and (match is None or match in d)

    changed = True
    while changed and budget > 0:
        changed = False
        lists = []

        def go(s):
            if isinstance(s, gen.SBlock):
                lists.append(s.s)
            for k in s.kids():
                go(k)
        go(g.main)
        for f in g.fns + g.rec:
            if f.body:
                go(f.body)
        for fl in (g.fns, g.rec):
            for f in list(fl):
                i = fl.index(f)
                fl.remove(f)
                if bad():
                    changed = True
                else:
                    fl.insert(i, f)
        for l in lists:
            n = len(l)
            size = n
            while size >= 1:
                i = 0
                while i < len(l):
                    cut = l[i:i + size]
                    del l[i:i + size]
                    if bad():
                        changed = True
                    else:
                        l[i:i] = cut
                        i += size
                size //= 2
    return g.text(), g.run()


def cases(pid):
    """directed programs of a property: (name, text, expected output lines)"""
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'cases', pid)
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith('.cxy'):
            p = os.path.join(d, f)
            out.append((f[:-4], open(p).read(), open(p[:-4] + '.txt').read().split('\n')[:-1]))
    return out
