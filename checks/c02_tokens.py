#!/usr/bin/env python3
"""C02: source text is read as the tokens, places and literal values it spells."""
import glob
import os
import random
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import lexref
import prog
import vp

SAN = ['-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=function']
LIT = {'integer literal': 'IntLiteral', 'identifier': 'Ident', 'floating-point literal': 'FloatLiteral',
       'character literal': 'CharLiteral', 'string literal': 'StringLiteral', '`(': 'LString', ')`': 'RString',
       '${': 'LStrFmt', 'end of file': 'EoF', 'invalid token': 'Error'}


def build(d):
    src = os.path.join(vp.REPO, 'src/cxy')
    files = sorted(glob.glob(os.path.join(src, 'core/*.c'))) + [os.path.join(src, 'lang/frontend/lexer.c')]
    jobs = [['clang', '-std=gnu11'] + SAN + ['-I', src, '-c', f, '-o', os.path.join(d, os.path.basename(f) + '.o')]
            for f in files]
    jobs.append(['clang++', '-std=gnu++20'] + SAN + ['-I', src, '-c', os.path.join(vp.VERIF, 'harness/lex_main.cpp'),
                                                     '-o', os.path.join(d, 'main.o')])
    for cmd, res in vp.pmap(lambda j: (j, vp.run(j, timeout=300)), jobs):
        if res.rc:
            raise vp.HarnessError('%s\n%s' % (' '.join(cmd), res.text[-2000:]))
    exe = os.path.join(d, 'lex')
    res = vp.run(['clang++', '-fsanitize=address,undefined', '-no-pie', '-Wl,--unresolved-symbols=ignore-all'] +
                 sorted(glob.glob(os.path.join(d, '*.o'))) + ['-o', exe], timeout=300)
    if res.rc:
        raise vp.HarnessError(res.text[-2000:])
    return exe


def expected(s):
    want, err = lexref.lex(s)
    pl = lexref.places(s, [o for w in want for o in w[1:3]])
    out = []
    for n, b, e, v in want:
        if n == 'FloatLiteral':
            # `1.5E3` is 1.5 followed by a name: no program holds it
            v = None if s[e:e + 1] == b'E' else float(v).hex()
        # the end recorded for a character is before its closing quote
        out.append((n, pl[b] + (b,), None if n == 'CharLiteral' else pl[e] + (e,), v))
    return out, err


def observed(lines, tags, s):
    out, errs = [], 0
    for l in lines:
        if l.startswith('errors'):
            errs = int(l.split()[1])
            continue
        if l == 'endless':
            out.append(('endless', None, None, None))
            continue
        f = l.split()
        n = tags.get(int(f[0]), '?')
        n = LIT.get(n, n)
        b, e = (tuple(map(int, x.split(':'))) for x in f[1:3])
        v = f[3] if len(f) > 3 else None
        if n == 'FloatLiteral':
            v = None if s[e[2]:e[2] + 1] == b'E' else float.fromhex(v).hex()
        elif v is not None:
            v = int(v)
        out.append((n, b, None if n == 'CharLiteral' else e, v))
    return out, errs


def compare(s, got, errs):
    want, err = expected(s)
    for i, w in enumerate(want):
        g = got[i] if i < len(got) else None
        if g != w:
            return 'token %d of the text is %r, read as %r' % (i, w, g)
    last = got[len(want)] if len(got) > len(want) else None
    if err is None:
        if last is None or last[0] != 'EoF':
            return 'after the last token there is %r' % (last,)
        if errs:
            return '%d errors reported for a readable text' % errs
    else:
        if last is None or last[0] != 'Error':
            return 'the text at offset %d is no token, read as %r' % (err, last)
        if last[1][2] != err:
            return 'the text at offset %d is no token, reported at %d' % (err, last[1][2])
        if not errs:
            return 'no error reported for the text at offset %d' % err
    return None


def tokens(c, d, exe):
    per = 500
    jobs = list(range(c.scale(160, 4000)))
    res = vp.run([exe, os.devnull, 'tags'], env=vp.SAN_ENV, timeout=60)
    tags = {}
    for l in res.out.decode().partition('tags\n')[2].splitlines():
        k, _, n = l.partition(' ')
        tags[int(k)] = n[1:-1] if len(n) > 2 and n[0] == n[-1] == "'" else n
    if len(tags) < 130:
        raise vp.HarnessError('token names: %r' % res.text[-500:])
    corpus = sorted(glob.glob(os.path.join(vp.REPO, 'src/cxy/**/*.cxy'), recursive=True) +
                    glob.glob(os.path.join(vp.REPO, 'tests/lang/**/*.cxy'), recursive=True) +
                    glob.glob(os.path.join(vp.REPO, 'examples/**/*.cxy'), recursive=True))

    def one(job):
        if c.left() < 0:
            c.count('skipped for time')
            return
        r = c.rng('tokens', job)
        if job == 0:
            cases = [open(f, 'rb').read() for f in corpus]
        else:
            cases = [lexref.source(r) for _ in range(per)]
        path = os.path.join(d, 'c%d' % job)
        with open(path, 'wb') as f:
            for s in cases:
                f.write(b'%d\n%s' % (len(s), s))
        res = vp.run([exe, path], env=vp.SAN_ENV, timeout=240)
        parts = res.out.decode('latin1').split('case ')[1:]
        k = vp.crash_key(res)
        if res.timeout or res.rc:
            bad = cases[len(parts) - 1] if parts else b''
            c.violation('lexer: ' + (k or 'exit %s' % res.rc), 'reading a text: %s' % (k or res.text[-300:]),
                        {'case.cxy': bad, 'report.txt': res.text[-4000:]})
            return
        for s, part in zip(cases, parts):
            got, errs = observed(part.splitlines()[1:], tags, s)
            why = compare(s, got, errs)
            c.count('tokens', len(got))
            c.count('texts')
            if errs:
                c.count('texts with an error')
            for g in got:
                c.count('kind ' + g[0] if g[0] in LIT.values() else 'kind operator or keyword')
            if why:
                c.violation('tokens: ' + re.sub(r'[0-9]+', 'N', why)[:60], why,
                            {'case.cxy': s, 'tokens.txt': '\n'.join(map(repr, got)) + '\n'})
                return
            if job:
                c.case(s.decode('latin1'), None)
        os.unlink(path)
    for _ in vp.pmap(one, jobs):
        pass


# ------------------------------------------------- literals, end to end

ESCAPES = [('\\n', 10), ('\\t', 9), ('\\v', 11), ('\\r', 13), ('\\a', 7), ('\\b', 8), ('\\\\', 92), ("\\'", 39), ('\\"', 34),
           ('\\$', 36)]


def literals(r):
    """A program made of literals and what it must print."""
    body, out = [], []
    for _ in range(60):
        k = r.random()
        if k < 0.3:
            v = r.choice([0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32,
                          (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, r.getrandbits(r.randint(1, 64))])
            t = r.choice([str(v), hex(v), bin(v), oct(v), '0x%X' % v])
            neg = r.random() < 0.3 and v <= 1 << 63
            if neg:
                t, v = '-' + t, -v
            how = r.choice(['print', 'var', 'typed'])
            if how == 'print':
                body.append('println(%s)' % t)
            elif how == 'var':
                n = 'v%d' % len(body)
                body.append('var %s = %s; println(%s)' % (n, t, n))
            else:
                fits = [('%s%d' % (s, b)) for b in (8, 16, 32, 64) for s in 'iu'
                        if (-(1 << (b - 1)) <= v < 1 << (b - 1) if s == 'i' else 0 <= v < 1 << b)]
                ty = r.choice(fits)
                n = 'v%d' % len(body)
                body.append('var %s: %s = %s; println(%s)' % (n, ty, t, n) if neg or ty[0] == 'i' and r.random() < 0.5 else
                            'println(%s`%s)' % (t, ty))
            out.append(str(v))
        elif k < 0.5:
            t = '%s.%s%s' % (r.choice(['0', '1', '3', '123456', str(r.getrandbits(50))]),
                             r.choice(['0', '1', '5', '14159265358979', str(r.getrandbits(40)), '000001']),
                             r.choice(['', '', 'e10', 'e-5', 'e+100', 'e-300', 'e200']))
            neg = '-' if r.random() < 0.2 else ''
            n = 'fl%d' % len(body)
            body.append('var %s: f64 = %s%s; printf("%%.17g\\n", %s); fflush(null)' % (n, neg, t, n))
            out.append('%.17g' % float(neg + t))
        elif k < 0.65:
            t, v = r.choice([(chr(x), x) for x in (97, 90, 48, 32, 34, 123, 233, 0x6f22, 0x1f600, 0x7e)] +
                            [e for e in ESCAPES] + [('\\0', 0)])
            body.append("println(<u32>'%s')" % t)
            out.append(str(v))
        elif k < 0.72:
            t, v = text(r, False)
            if '\0' in v:
                continue
            body.append('{ var s = "%s".S; println(s.size()); println(&s) }' % t)
            b = v.encode('utf-8')
            out.append(str(len(b)))
            out.extend(v.split('\n'))
        elif k < 0.85:
            t, v = text(r, False)
            body.append('println("%s")' % t)
            out.extend(v.split('\n'))
        else:
            a, va = text(r, True)
            b, vb = text(r, True)
            x = r.randint(0, 10 ** 9)
            body.append('println(f"%s${%d}%s${"%s"}")' % (a, x, b, 'in'))
            out.extend((va + str(x) + vb + 'in').split('\n'))
    src = ('extern func printf(fmt: string, ...args: auto): i32\nextern func fflush(p: ^void): i32\nfunc main() {\n    ' +
           ';\n    '.join(body) + ';\n}\n')
    return src, out


def text(r, fmt):
    t, v = '', ''
    for _ in range(r.choice([0, 1, 3, 8])):
        if r.random() < 0.3:
            a, b = r.choice(ESCAPES)
            t += a
            v += chr(b)
        else:
            x = r.choice(['a', ' ', 'Z9', '//', '/*', "'", '#', '\u00e9', '\u6f22', '\U0001f600', '.', '%d', '%', '}' if not fmt else 'f'])
            t += x
            v += x
    return t, v


def programs(c):
    run = prog.Runner()

    def one(i):
        if c.left() < 0:
            c.count('skipped for time')
            return
        src, want = literals(c.rng('literals', i))
        verdict, detail = prog.judge(run, src, want)
        c.count('literal programs')
        c.count('printed literals', len(want))
        if verdict != 'held':
            c.violation('literals: %s' % verdict, detail[:600],
                        {'case.cxy': src, 'expected.txt': '\n'.join(want) + '\n', 'detail.txt': detail})
            return
        c.case(src, None)
    for _ in vp.pmap(one, range(c.scale(120, 2500))):
        pass


def main():
    c = vp.Check('C02', rule='a case is one text whose complete token stream (kind, place, value) was compared with a second '
                             'reading, or one program that printed 60 literals; distinct by text',
                 assumptions=['clang 18 address and undefined behaviour sanitizers', 'lib/lexref.py states the lexical grammar',
                              "Python's float() and the C library's %.17g round correctly"])
    d = vp.workdir()
    tokens(c, d, build(d))
    programs(c)
    c.finish(min_evaluations=1000)


vp.main(main)
