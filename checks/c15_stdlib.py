#!/usr/bin/env python3
"""C15: base64, path, time and trie of the standard library do what their names say, for every input."""
import base64
import calendar
import os
import random
import re
import shutil
import stat
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import prog
import vp

HERE = os.path.dirname(os.path.abspath(__file__))
B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
URL = B64[:62] + b'-_'
PARTS = ['a', 'b', 'c', 'dd', 'e.txt', '.hidden', 'with space', 'x' * 200, '\u00fc', '...', '-n']


def data(r):
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, r.randint(0, 40), r.randint(0, 300), r.randint(0, 5000)])
    k = r.random()
    if k < .6:
        return bytes(r.randrange(256) for _ in range(n))
    if k < .8:
        return bytes(r.choice([0, 255, 251, 62, 63]) for _ in range(n))
    return bytes(r.randrange(32, 127) for _ in range(n))


def codec(r):
    op = r.choice('EUDV')
    d = data(r)
    if op == 'E':
        return op + d.hex(), ['bytes ' + base64.b64encode(d).hex()]
    if op == 'U':
        e = base64.urlsafe_b64encode(d).rstrip(b'=')
        return op + d.hex(), ['size %d' % len(e), 'bytes ' + e.hex()]
    e = bytearray(base64.b64encode(d) if op == 'D' else base64.urlsafe_b64encode(d).rstrip(b'='))
    alpha = B64 if op == 'D' else URL
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        c = r.choice([r.choice(alpha), r.choice(alpha), 61, 43, 45, 95, 47, 0, 255, 128, 10, 32, r.randrange(256)])
        k = r.randint(0, 3)
        if k == 0 or not e:
            e.insert(r.randint(0, len(e)), c)
        elif k == 1:
            e[r.randrange(len(e))] = c
        elif k == 2:
            e[-1] = c
        else:
            del e[r.randrange(len(e))]
    e = bytes(e)
    if op == 'D':
        core = e[:-1] if e[-1:] == b'=' else e
        core = core[:-1] if core != e and core[-1:] == b'=' else core
        ok = len(e) % 4 == 0 and all(x in B64 for x in core) and len(core) % 4 != 1
    else:
        core = e
        ok = all(x in URL for x in core) and len(core) % 4 != 1
    if not ok:
        return op + e.hex(), ['refused']
    v = 0
    for x in core:
        v = v << 6 | alpha.index(x)
    n = len(core) * 6
    return op + e.hex(), ['bytes ' + (v >> n % 8).to_bytes(n // 8, 'big').hex()]


DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def clock(r):
    lo, hi = -30610224000, 253402300799        # the years 1000 to 9999
    n = r.choice([0, -1, 951782400, 951868799, 4107542400, lo, hi, 2 ** 31 - 1, 2 ** 31, -2 ** 31, r.randint(lo, hi), r.randint(0, 2 ** 32)])
    days, sec = divmod(n, 86400)
    # days to a date, by eras of 400 years
    z = days + 719468
    era, doe = divmod(z, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d, m = doy - (153 * mp + 2) // 5 + 1, mp + 3 if mp < 10 else mp - 9
    y = yoe + era * 400 + (m <= 2)
    s = '%s, %02d %s %d %02d:%02d:%02d GMT' % (DAYS[(days + 3) % 7], d, MONTHS[m - 1], y, sec // 3600, sec // 60 % 60, sec % 60)
    if r.random() < .5:
        return 'T%d' % n, ['time %s %d' % (s, n)]
    return 'P' + s, ['stamp %d' % n]


def path(r, deep=4):
    return '/'.join(r.choice(PARTS) for _ in range(r.randint(1, deep)))


def names(r, home):
    k = r.randint(0, 3)
    p = path(r, 5)
    if r.random() < .3:
        p = '/' + p
    if r.random() < .2:
        p = p.replace('/', '//', 1)
    if k == 0:
        return '/' + p, ['join ' + p + '/next']
    if k == 1:
        q = r.choice(['~', '~/' + p.lstrip('/'), p])
        want = q
        if q.startswith('~'):
            rest = q[1:].lstrip('/')
            want = home if not rest else home + ('' if home.endswith('/') else '/') + rest
        return 'x' + q, ['expand ' + want]
    if '/' not in p:
        p = 'q/' + p
    if r.random() < .2:
        p += '/'
    d, _, b = p.rpartition('/')
    return 'n' + p, ['name %s base %s dir %s' % (b, b, d)]


class Tree:
    """Does with Python in its own folder what the program does in another."""

    def __init__(self, root, r):
        self.root = root
        self.r = r

    def p(self, q):
        return os.path.join(self.root, q)

    def some(self):
        r = self.r
        have = []
        for d, ds, fs in os.walk(self.root):
            rel = os.path.relpath(d, self.root)
            for n in sorted(ds + fs):
                have.append(n if rel == '.' else rel + '/' + n)
            ds.sort()
        q = r.choice(sorted(have)) if have and r.random() < .75 else path(r, 3)
        if r.random() < .25:
            q += '/' + path(r, 2)
        return q

    def op(self):
        r = self.r
        o = r.choice('sssmmMMMrrReelLc')
        q = self.some()
        f = self.p(q)
        if o == 's':
            b = [os.path.exists(f), os.path.isfile(f), os.path.isdir(f), os.path.islink(f), os.path.exists(f)]
            size = os.stat(f).st_size if b[0] else 7777777
            return o + q, ['stat ' + ''.join('true' if x else 'false' for x in b), 'size *' if b[2] else 'size %d' % size]
        if o == 'm':
            try:
                os.mkdir(f)
                return o + q, ['made']
            except OSError:
                return o + q, ['failed']
        if o == 'M':
            if r.random() < .08:
                q = '/'.join(['y' * 180] * r.randint(4, 12))
                f = self.p(q)
            if os.path.exists(f):
                return o + q, ['made']
            try:
                os.makedirs(f)
                return o + q, ['made']
            except OSError:
                return o + q, ['failed']
        if o in 'rR':
            try:
                if os.path.isdir(f) and not os.path.islink(f):
                    shutil.rmtree(f) if o == 'R' else os.rmdir(f)
                elif os.path.lexists(f):
                    os.unlink(f)
                return o + q, ['removed']
            except OSError:
                return o + q, ['failed']
        if o == 'e':
            return 'e' + q, ['empty %s' % ('true' if os.path.isdir(f) and not os.listdir(f) else 'false')]
        if o in 'lL':
            if r.random() < .3:
                q, f = '.', self.root
            if not os.path.isdir(f):
                return o + q, ['failed']
            out = []
            if o == 'l':
                out = [q + '/' + n for n in os.listdir(f)]
            else:
                for d, ds, fs in os.walk(f):
                    rel = os.path.relpath(d, f)
                    out += [q + '/' + ('' if rel == '.' else rel + '/') + n for n in ds + fs]
            return o + q, ['entry ' + x for x in sorted(out)]
        return 'c', ['cwd *']

    def plant(self):
        """files and links that are there at the start"""
        r = self.r
        made = []
        for _ in range(r.randint(0, 8)):
            q = path(r, 3)
            f = self.p(q)
            try:
                os.makedirs(os.path.dirname(f), exist_ok=True)
                if r.random() < .6:
                    with open(f, 'xb') as o:
                        o.write(b'x' * r.choice([0, 1, 77, 5000]))
                    made.append(('file', q))
                else:
                    # links stay inside, and do not make a cycle of folders
                    to = r.choice(['nowhere', 'keep', 'keep/inner', 'keep/file'])
                    os.symlink('../' * q.count('/') + to, f)
                    made.append(('link', q))
            except OSError:
                pass
        os.makedirs(self.p('keep/inner'), exist_ok=True)
        for n in ('keep/file', 'keep/inner/file'):
            with open(self.p(n), 'w') as o:
                o.write('keep me')


def listing(root):
    out = []
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            f = os.path.join(d, n)
            s = os.lstat(f)
            kind = 'dir' if stat.S_ISDIR(s.st_mode) else 'link ' + os.readlink(f) if stat.S_ISLNK(s.st_mode) else 'file %d' % s.st_size
            out.append((os.path.relpath(f, root), kind))
    return sorted(out)


def main():
    c = vp.Check('C15', rule='a case is one run of the driver program with 20 to 60 operations in one process; distinct by its operations',
                 assumptions=['clang 18 is correct', 'the oracle is Python\'s base64 and os and a calendar computation'])
    R = prog.Runner()
    cxy = R.cxy
    top = cxy.scratch('s')
    vp.write(top, 'a.cxy', open(os.path.join(HERE, '..', 'harness', 'stdlib_helpers.cxy')).read())
    b = cxy.build(top, shim=R.shim)
    app = os.path.join(top, 'app')
    if b.rc or not os.path.exists(app):
        c.violation('driver does not compile', 'the program that uses base64, path, time and trie does not compile\n' + b.text[-3000:],
                    {'a.cxy': open(os.path.join(top, 'a.cxy')).read()})
        c.finish(min_evaluations=0)
        return
    # the program under test runs as a user who owns nothing but its folder
    base = os.path.dirname(top)
    os.chmod(base, 0o755)
    os.chmod(top, 0o755)
    os.chmod(app, 0o755)

    def one(i):
        if c.left() < 0:
            return i, None
        r = c.rng('case', i)
        kind = ['codec', 'clock', 'names', 'tree', 'tree', 'trie'][i % 6]
        home = r.choice(['/home/q', '/', '/h/', '/with space'])
        ops = []
        box = cxy.scratch('b')
        mine, twin = os.path.join(box, 'run'), os.path.join(box, 'twin')
        os.makedirs(mine)
        os.makedirs(twin)
        try:
            if kind == 'tree':
                s = r.randrange(2 ** 40)
                for d in (mine, twin):
                    Tree(d, random.Random(s)).plant()
                T = Tree(twin, r)
                ops = [T.op() for _ in range(r.randint(10, 40))]
                start = listing(mine)
            elif kind == 'trie':
                keys, pool = {}, []
                for n in range(r.randint(20, 60)):
                    k = r.choice(pool)[:r.randint(1, 12)] if pool and r.random() < .6 else ''
                    k = k + ''.join(r.choice('ab/\u00e9z-') for _ in range(r.randint(0 if k else 1, 4)))
                    if r.random() < .5 and k not in keys:
                        keys[k] = n + 1
                        pool.append(k)
                        ops.append(('a' + k, ['added']))
                    else:
                        ops.append(('f' + k, ['found %d' % keys[k] if k in keys else 'absent']))
            else:
                f = {'codec': lambda: codec(r), 'clock': lambda: clock(r), 'names': lambda: names(r, home)}[kind]
                ops = [f() for _ in range(r.randint(20, 60))]
            for d, ds, fs in os.walk(mine):
                for n in [d] + [os.path.join(d, x) for x in fs]:
                    os.lchown(n, 65534, 65534)
            os.chmod(box, 0o755)
            x = vp.run(['setpriv', '--reuid', '65534', '--regid', '65534', '--clear-groups', app] + [o for o, _ in ops],
                       cwd=mine, env=dict(R.env, HOME=home), timeout=60, fsize=8000000)
            out, err = x.out.decode('utf-8', 'surrogateescape').split('\n'), x.err.decode('utf-8', 'replace')
            n = 0
            bad = None
            for o, want in ops:
                got = out[n:n + len(want)]
                n += len(want)
                if o[0] in 'lL' and want != ['failed']:
                    if o[0] == 'L':
                        # a folder comes after what is in it
                        for j, e in enumerate(got):
                            if any(e != g and g.startswith(e + '/') for g in got[j + 1:]):
                                bad = 'order of %r' % o
                    got = sorted(got)
                    want = sorted(want)
                for g, w in zip(got + [None] * len(want), want):
                    if w.endswith('*') and g:
                        ok = g.startswith(w[:-1]) if w != 'cwd *' else g == 'cwd ' + os.path.realpath(mine)
                    else:
                        ok = g == w
                    if not ok and not bad:
                        bad = '%r gives %r, expected %r' % (o[:200], g and g[:200], w[:200])
                if bad:
                    break
            if x.timeout:
                bad = 'timeout after ' + str(bad)
            elif x.rc or 'Sanitizer' in err or 'runtime error' in err:
                bad = 'exit %s: %s' % (x.rc, prog.trim(err)) + '\n' + str(bad)
            elif not bad and out[n:] != ['']:
                bad = 'more output than expected: %r' % out[n:n + 3]
            elif not bad and kind == 'tree':
                a, e = listing(mine), listing(twin)
                if [y for y in a if y[1] != 'dir'] != [y for y in e if y[1] != 'dir'] or a != e:
                    bad = 'the files differ at the end: %r, expected %r' % ([y for y in a if y not in e][:5], [y for y in e if y not in a][:5])
            if bad and kind == 'tree':
                bad += '\nat the start: %r' % start
            return i, (kind, [o for o, _ in ops], bad)
        finally:
            shutil.rmtree(box, True)

    for i, res in vp.pmap(one, range(c.scale(1500, 30000))):
        if res is None:
            continue
        kind, ops, bad = res
        c.case(repr(ops), sample={'kind': kind, 'operations': [o[:60] for o in ops[:10]]})
        c.count(kind)
        for o in ops:
            c.count('operation ' + o[0])
        if bad:
            key = re.sub(r"'.*?'", '', bad.split('\n')[0])[:60]
            m = re.search(r"^'(.)", bad)
            c.violation('%s %s %s' % (kind, m.group(1) if m else '', key), bad, {'operations.txt': '\n'.join(ops)})
    c.finish(min_evaluations=600)


vp.main(main)
