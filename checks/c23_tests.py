#!/usr/bin/env python3
"""C23: `cxy test` runs every test of a file once, in order, and its exit code tells whether all passed."""
import os
import re
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import prog
import tests_gen
import vp

ANSI = re.compile(r'\x1b\[[0-9;]*m')
WIPE = re.compile(r'\r {90,}\r')
STDLIB = ['src/cxy/stdlib/hash.cxy', 'src/cxy/stdlib/list.cxy', 'src/cxy/stdlib/vector.cxy', 'src/cxy/runtime/builtins.test.cxy']


def observe(out):
    """[(name, printed lines, passed, exception text, row)] and the last line"""
    out = ANSI.sub('', out)
    parts = out.split('  Running test case ')
    seen = []
    last = ''
    for i, p in enumerate(parts[1:]):
        m = re.search(r'\r {90,}\r  ([\u2713\u2718]) ', p)
        if not m:
            seen.append((p.split('\n')[0], None, None, None, None))
            continue
        before, after = p[:m.start()].rstrip(' ').rstrip('\r'), p[m.end():]
        mark = m.group(1)
        # `before` is the name, then what the test printed
        seen.append((before, after, mark == '\u2713'))
    m = re.findall(r'(?m)^\u2718 FAILED - (-?\d+)/(-?\d+) tests failed!$', out)
    return parts[0], seen, m


def main():
    c = vp.Check('C23', rule='a case is one file with test declarations, its imports included, run with `cxy test`, its program run again '
                             'by itself, or built with `cxy build`; distinct by the text of the files and the command',
                 assumptions=['clang 18 is correct'])
    R = prog.Runner()
    cxy = R.cxy
    cxy.env.update(R.env)

    def compare(F, out, rc):
        head, seen, total = observe(out)
        exp = F.events
        if not exp:
            if '0 tests defined in ' not in head + ''.join(x[0] for x in seen) or seen:
                return 'a file without tests is not reported as such'
            return None if rc == 0 else 'exit code %s without tests' % rc
        if not re.match(r'Running \S*a\.cxy tests\.\.\.\n', head):
            return 'the file is not announced'
        for i in range(max(len(exp), len(seen))):
            if i >= len(seen):
                return 'test %d (%r) did not run' % (i + 1, exp[i][0])
            if i >= len(exp):
                return 'one test too many ran: %r' % seen[i][0][:80]
            name, printed, exc = exp[i]
            if len(seen[i]) != 3:
                return 'test %d (%r) has no verdict' % (i + 1, name)
            before, after, passed = seen[i]
            want = name + ''.join(x + '\n' for x in printed)
            if before != want.rstrip('\n') and before != want:
                return 'test %d: expected %r, got %r' % (i + 1, want, before)
            if passed != (exc is None):
                return 'test %d (%r) is reported as %s' % (i + 1, name, 'passed' if passed else 'failed')
            if not after.startswith(name + (' ' if exc else '\n')):
                return 'the verdict of test %d names %r' % (i + 1, after[:80])
            if exc:
                rest = after[len(name) + 1:]
                if not rest.startswith(exc[0]):
                    return 'test %d (%r) failed by %r, reported is %r' % (i + 1, name, exc[0], rest[:80])
                if exc[1] and not re.search(r'a\.cxy:%d\)' % exc[1], rest.split('FAILED')[0]):
                    return 'test %d (%r) failed at row %d, reported is %r' % (i + 1, name, exc[1], rest[:200])
        nf = sum(1 for e in exp if e[2])
        if bool(rc) != bool(nf):
            return 'exit code %s with %d of %d tests failing' % (rc, nf, len(exp))
        if total != ([(str(nf), str(len(exp)))] if nf else []):
            return 'the summary is %r, expected %d of %d' % (total, nf, len(exp))
        return None

    def one(k):
        if c.left() < 0:
            return k, None
        kind, i = k
        if kind == 'stdlib':
            d = cxy.scratch('t')
            try:
                f = os.path.join(vp.REPO, STDLIB[i])
                n = len(re.findall(r'(?m)^ *test "', open(f).read()))
                r = cxy.build(d, name=f, shim=R.shim, cmd='test')
                out = ANSI.sub('', r.text)
                bad = None
                if vp.crash_key(r):
                    bad = vp.crash_key(r)
                elif r.rc or 'Sanitizer' in out or 'FAILED' in out:
                    bad = 'tests of the standard library fail'
                elif len(re.findall('(?m)\r  \u2713 ', out)) != n:
                    bad = '%d tests ran, the file has %d' % (len(re.findall('(?m)\r  \u2713 ', out)), n)
                return k, ({'name': STDLIB[i]}, {'tests': n}, bad, out[-2500:])
            finally:
                shutil.rmtree(d, True)
        r = c.rng(kind, i)
        F = tests_gen.File(r, many=kind == 'many')
        files = dict(F.files, **{'a.cxy': F.text()})
        d = cxy.scratch('t')
        try:
            for n, t in files.items():
                vp.write(d, n, t)
            if kind == 'build':
                v, det = prog.judge(R, files['a.cxy'], ['@main0'], files=F.files)
                if det and v == 'output':
                    det = det
                return k, (files, {'builds without the tests': 1}, None if v == 'held' else v, det)
            res = cxy.build(d, shim=R.shim, cmd='test')
            key = vp.crash_key(res)
            if key:
                return k, (files, F.info, 'crash ' + key, res.text[-2500:])
            text = res.text
            if not os.path.exists(os.path.join(d, 'app')):
                return k, (files, F.info, 'not compiled', text[-2500:])
            nf = sum(1 for e in F.events if e[2])
            if bool(res.rc) != bool(nf):
                return k, (files, F.info, '`cxy test` exits with %d when %d tests fail' % (res.rc, nf), text[-2500:])
            x = vp.run(['./app'], cwd=d, env=R.env, timeout=60, fsize=8000000)
            out, err = x.out.decode('utf-8', 'replace'), x.err.decode('utf-8', 'replace')
            if 'Sanitizer' in err or 'runtime error' in err or x.rc == 99:
                return k, (files, F.info, 'app ' + (vp.crash_key(x) or ''), prog.trim(err))
            bad = compare(F, out, x.rc)
            if not bad and len(F.events):
                # what `cxy test` itself ran
                n = len(re.findall('\r  [\u2713\u2718] ', ANSI.sub('', text)))
                if n != len(F.events):
                    bad = '`cxy test` ran %d of %d tests' % (n, len(F.events))
            return k, (files, F.info, bad, out[-2500:])
        finally:
            shutil.rmtree(d, True)

    items = [('stdlib', i) for i in range(len(STDLIB))]
    items += [('test', i) for i in range(c.scale(500, 6000))]
    items += [('many', i) for i in range(c.scale(16, 120))]
    items += [('build', i) for i in range(c.scale(80, 800))]
    for k, res in vp.pmap(one, items):
        if res is None:
            continue
        files, info, bad, det = res
        c.case(repr((k[0], sorted(files.items()))), sample={'kind': k[0], 'program': files.get('a.cxy', files.get('name', ''))[:1500]})
        for n, v in info.items():
            c.count(n, v)
        c.count(k[0])
        if bad:
            c.violation('%s: %s' % (k[0], bad), '%s\n%s' % (bad, det), files)
    c.finish(min_evaluations=300)


vp.main(main)
