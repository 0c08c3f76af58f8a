#!/usr/bin/env python3
"""C22: every command line is obeyed as written or refused with a message."""
import os
import re
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import prog
import vp

# name, short, takes a value
FLAGS = [('max-errors', '', 1), ('warnings', '', 1), ('warnings-all', '', 0), ('no-color', '', 0), ('without-builtins', '', 0),
         ('cflags', '', 1), ('no-pie', '', 0), ('optimization', 'O', 1), ('define', 'D', 1), ('with-mm', '', 0), ('c-define', '', 1),
         ('c-header-dir', '', 1), ('c-lib-dir', '', 1), ('c-lib', '', 1), ('debug', 'g', 0), ('debug-pass-manager', '', 0),
         ('passes', '', 1), ('load-pass-plugin', '', 1), ('dump-stats', '', 1), ('no-progress', '', 0), ('stdlib', '', 1)]
DEV = [('last-stage', '', 1), ('dump-ast', '', 1), ('clean-ast', '', 0), ('with-location', '', 0), ('without-attrs', '', 0),
       ('with-named-enums', '', 0), ('output', 'o', 1), ('print-ir', '', 0), ('emit-assembly', '', 0), ('emit-bitcode', '', 0)]
BUILD = [('output', 'o', 1), ('build-dir', '', 1)]
WARN = ['MissingStage', 'UnusedVariable', 'RedundantStmt', 'CMacroRedefine', 'CUnsupportedField', 'MaybeUninitialized']
STDLIB = os.path.join(vp.REPO, 'src/cxy')

PROG = '''func unused(xyz: i32) {}
func main() {
    unused(1);
%s
}
'''
ANSI = re.compile(r'\x1b\[[0-9;]*m')


def spell(r, name, short, value):
    """the argument(s) that give a flag a value"""
    if value is None:
        return ['-' + short] if short and r.random() < .5 else ['--' + name]
    k = r.randint(0, 3 if short and value else 1)
    if k == 0:
        return ['--%s=%s' % (name, value)]
    if k == 1:
        return ['--' + name, value]
    if k == 2:
        return ['-' + short + value]
    return ['-' + short, value]


class Good:
    """a command line with known meaning"""

    def __init__(self, r):
        self.r = r
        opts = []
        self.defs = {}
        for _ in range(r.choice([0, 1, 2, 4, 12])):
            n = r.choice(['A', 'B', '_x', 'Zed9', 'a_b', 'L' * 60])
            if n in self.defs:
                continue
            k = r.randint(0, 3)
            v, shown = [(str(r.randint(-99, 10 ** 6)),) * 2, ('"s%d"' % r.randint(0, 99), None), ('true', 'true'), ('"' + 'v' * 600 + '"', 'v' * 600)][k]
            if shown is None:
                shown = v[1:-1]
            self.defs[n] = shown
            opts.append(('define', 'D', n + '=' + v))
        self.out = 'app'
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            self.out = r.choice(['app', 'other', 'a.out', 'name-with-dash', 'n' * 100, './here', 'two words', "it's", 'a;b', '$HOME', 'a&b', '(x)', 'q"q', '`a`', '%s{s}', '\u00e9'])
            opts.append(('output', 'o', self.out))
        self.mm = r.random() < .7
        if self.mm:
            opts.append(('with-mm', '', None))
        self.warn = True
        if r.random() < .5:
            ids = []
            on = {x: x not in ('MissingStage', 'CMacroRedefine', 'MaybeUninitialized') for x in WARN}
            for _ in range(r.randint(1, 5)):
                w = r.choice(WARN + ['UnusedVariable'] * 3 + ['All', 'None'])
                no = r.random() < .5 and w != 'None'
                ids.append(r.choice(['', ' ']) + ('~' if no else '') + w + r.choice(['', ' ']))
                for x in WARN if w in ('All', 'None') else [w]:
                    on[x] = not no and w != 'None'
            opts.append(('warnings', '', r.choice(['|', '||']).join(ids).strip()))
            self.warn = on['UnusedVariable']
        self.stats = 'SUMMARY'
        for _ in range(r.choice([0, 0, 1, 2])):
            self.stats = r.choice(['NONE', 'SUMMARY', 'FULL'])
            opts.append(('dump-stats', '', self.stats))
        if r.random() < .3:
            opts.append(('optimization', 'O', r.choice('0d123s')))
        if r.random() < .3:
            opts.append(('debug', 'g', None))
        if r.random() < .2:
            opts.append(('no-color', '', None))
        if r.random() < .2:
            opts.append(('no-pie', '', None))
        for _ in range(r.choice([0, 0, 1, 2])):
            opts.append(('c-lib', '', 'm'))
        for _ in range(r.choice([0, 0, 1, 2])):
            opts.append(('c-lib-dir', '', r.choice(['lib', 'my lib', "it's", '$x', 'a;b'])))
        self.max = 10
        for _ in range(r.choice([0, 0, 1, 2])):
            self.max = r.choice([1, 2, 3, 9, 10, 11, 25, 100])
            opts.append(('max-errors', '', r.choice([str(self.max), hex(self.max)])))
        # the last of several values counts: keep the order of equal flags
        slots = [o[0] for o in opts]
        r.shuffle(slots)
        q = {}
        for o in opts:
            q.setdefault(o[0], []).append(o)
        groups = [spell(r, *q[n].pop(0)) for n in slots]
        groups.insert(r.randint(0, len(groups)), ['--no-progress'])
        groups.insert(r.randint(0, len(groups)), spell(r, 'stdlib', '', STDLIB))
        groups.insert(r.randint(0, len(groups)), ['a.cxy'])
        self.argv = ['build'] + [x for g in groups for x in g]

    def text(self):
        body = ['    println("main");']
        for n in ['A', 'B', '_x', 'Zed9', 'a_b', 'L' * 60]:
            body.append('    #if (defined %s) { println("%s ", %s!); } else { println("no %s"); }' % (n, n, n, n))
        return PROG % '\n'.join(body)

    def lines(self):
        return ['main'] + [('%s %s' % (n, self.defs[n]) if n in self.defs else 'no ' + n) for n in ['A', 'B', '_x', 'Zed9', 'a_b', 'L' * 60]]


def junk(r):
    """mostly wrong: no character means something to a shell, no name leaves the folder"""
    n = r.choice([0, 1, 2, 3, 8, 60, 130, 500, 511, 512, 513, 2000, 30000])
    return ''.join(r.choice('ab%s{}~=-1_.,: \x80\xff{s}%n') for _ in range(n))


def wild(r):
    argv = []
    if r.random() < .7:
        argv.append(r.choice(['build', 'dev', 'test', 'help', 'buildx', 'buil', '', 'build']))
    for _ in range(r.randint(0, 7)):
        k = r.random()
        n, s, v = r.choice(FLAGS + DEV + BUILD)
        if k < .4:
            val = r.choice(['', '1', '-1', 'x', '0x', '1e5', '99999999999999999999', 'JSON', 'All', '~', '|', '~All', 'Codegen', 'nope',
                            'A', 'A=', 'A=1', '9a', 'A-B=2', '=', '\u00e9', junk(r)])
            argv += r.choice([['--' + n], ['--%s=%s' % (n, val)], ['--' + n, val], ['--%s = %s' % (n, val)],
                              ['-' + (s or 'q') + val], ['-' + (s or 'q'), val], ['--' + n[:-1]], ['--' + n + 'x', val]])
        elif k < .6:
            argv.append(junk(r))
        elif k < .7:
            argv.append(r.choice(['-', '--', '---', '-=', '--=', '--=x', '-\xff', '-D', '-o', '-O', '-h', '-v', '--help', '--version', '-g', '-gg', '=']))
        else:
            argv.append(r.choice(['a.cxy', 'a.cxy', 'missing.cxy', '.', 'a.cxy/', 'dir', 'a.txt', 'noext']))
    # written inside the folder, whatever is made of it
    return [a.replace('/', '_') if a not in ('a.cxy/',) else a for a in argv]


# what is refused, and a word that the message has to contain
REFUSED = [
    (['--nope'], '--nope'), (['-q'], '-q'), (['--max-errors=x'], 'max-errors'), (['--max-errors=1x'], 'max-errors'), (['--max-errors='], 'max-errors'),
    (['--max-errors=99999999999999999999'], 'max-errors'), (['-O9'], 'optimization'), (['-O22'], 'optimization'), (['--optimization=fast'], 'optimization'),
    (['-D9'], 'define'), (['-DA-B=1'], 'define'), (['--define=='], 'define'), (['--warnings=Bogus'], 'Bogus'), (['--warnings=UnusedVariable|Bogus'], 'Bogus'),
    (['--warnings=~Unused'], 'Unused'), (['--dump-stats=MOST'], 'dump-stats'), (['--dump-stats='], 'dump-stats'), (['--no-color=1'], 'no-color'),
    (['--with-mm=yes'], 'with-mm'), (['--debug=1'], 'debug'), (['--cflags='], 'cflags'), (['--c-lib='], 'c-lib'), (['--last-stage=Codegen'], 'last-stage'),
    (['--nope={s}{s}{d}'], '--nope'), (['--' + 'x' * 400], 'xxxx'), (['--max-errors=' + '7' * 3000], '777'), (['--warnings=' + '{s}' * 100], '{s}'),
    (['--warn'], '--warn'), (['--outputs=x'], '--outputs'), (['missing.cxy'], '.cxy'), (['--dump-stats=' + 'y' * 5000], 'yyyy')]
LAST = ['--max-errors', '--optimization', '-O', '-D', '--define', '-o', '--output', '--cflags', '--dump-stats', '--stdlib', '--c-lib', '--warnings', '--build-dir']


def main():
    c = vp.Check('C22', rule='a case is one command line: of known meaning, with one thing wrong, or arbitrary; distinct by its arguments',
                 assumptions=['clang 18 is correct', 'the meaning of the options is that of the help text'])
    cxy = vp.Cxy('asan')

    def run(d, argv, timeout=120):
        return vp.run([cxy.exe] + [a.encode('utf-8', 'surrogateescape') for a in argv], cwd=d, env=cxy.env, timeout=timeout, fsize=4000000)

    def one(k):
        if c.left() < 0:
            return k, None
        kind, i = k
        r = c.rng(kind, i)
        d = cxy.scratch('c')
        try:
            if kind == 'obeyed':
                g = Good(r)
                vp.write(d, 'a.cxy', g.text())
                x = run(d, g.argv)
                text = ANSI.sub('', x.text)
                bad = None
                out = os.path.join(d, g.out)
                if vp.crash_key(x):
                    bad = 'crash ' + vp.crash_key(x)
                elif x.rc:
                    bad = 'refused'
                elif not os.path.exists(out):
                    bad = 'no output at the name given (%s)' % ' '.join(sorted(os.listdir(d)))[:200]
                elif [f for f in os.listdir(d) if f not in ('a.cxy', os.path.basename(g.out), os.path.basename(g.out) + '.c', 'app.c')]:
                    bad = 'more files than asked for: %s' % ' '.join(sorted(os.listdir(d)))[:200]
                elif ('duration' in text.lower()) != (g.stats != 'NONE') or ('Allocated (Kb)' in text) != (g.stats == 'FULL'):
                    bad = 'statistics are not those of --dump-stats=' + g.stats
                elif g.mm and ('xyz' in text and 'not used' in text) != g.warn:
                    bad = 'the warning of the unused parameter is %s' % ('missing' if g.warn else 'printed')
                else:
                    y = vp.run([out], cwd=d, timeout=20)
                    got = y.out.decode('utf-8', 'replace').split('\n')[:-1]
                    if y.rc or got != g.lines():
                        bad = 'the program prints %r, expected %r' % ([a[:30] for a in got if a not in g.lines()], [a[:30] for a in g.lines() if a not in got])
                return k, (g.argv, bad, text[-1500:])
            if kind == 'errors':
                g = Good(r)
                n = r.choice([1, 2, 5, 9, 10, 11, 30])
                vp.write(d, 'a.cxy', ''.join('func f%d() { var x: string = %d; }\n' % (j, j) for j in range(n)) + 'func main() {}\n')
                x = run(d, g.argv)
                text = ANSI.sub('', x.text)
                got = len(re.findall('(?m)^error: variable initializer', text))
                bad = None
                if vp.crash_key(x):
                    bad = 'crash ' + vp.crash_key(x)
                elif x.rc != 1:
                    bad = 'exit code %s' % x.rc
                elif got != min(n, g.max):
                    bad = '%d errors printed of %d with a maximum of %d' % (got, n, g.max)
                return k, (g.argv, bad, text[-1500:])
            vp.write(d, 'a.cxy', PROG % '    println("x");')
            if kind == 'refused':
                if i < len(REFUSED) * 2:
                    w, word = REFUSED[i // 2]
                    w = list(w)
                    argv = ['build', '--no-progress', '--stdlib', STDLIB]
                    argv = argv + w + ['a.cxy'] if i % 2 else argv + ['a.cxy'] + w
                else:
                    j = i - len(REFUSED) * 2
                    w = LAST[j % len(LAST)]
                    word = {'-O': 'optimization', '-D': 'define', '-o': 'output'}.get(w, w.lstrip('-'))
                    argv = ['build', 'a.cxy', '--no-progress', w]
                x = run(d, argv)
                text = ANSI.sub('', x.text)
                bad = None
                if vp.crash_key(x):
                    bad = 'crash ' + vp.crash_key(x)
                elif x.rc != 1:
                    bad = 'exit code %s' % x.rc
                elif word not in text:
                    bad = 'the message does not name %r' % word
                elif os.path.exists(os.path.join(d, 'app')):
                    bad = 'refused, but built'
                return k, (argv, bad, text[-1500:])
            os.mkdir(os.path.join(d, 'dir'))
            vp.write(d, 'a.txt', 'hello\n')
            vp.write(d, 'noext', '')
            argv = wild(r)
            x = run(d, argv)
            text = ANSI.sub('', x.text)
            bad = None
            if vp.crash_key(x):
                bad = 'crash ' + vp.crash_key(x)
            elif x.rc not in (0, 1):
                bad = 'exit code %s' % x.rc
            elif x.rc == 1 and not re.search('error|Usage|warning', text) and not (re.search(r"max-errors", ' '.join(argv))):
                bad = 'refused without a message'
            return k, (argv, bad, text[-1500:])
        finally:
            shutil.rmtree(d, True)

    items = [('refused', i) for i in range(len(REFUSED) * 2 + len(LAST))]
    items += [('obeyed', i) for i in range(c.scale(400, 3000))]
    items += [('errors', i) for i in range(c.scale(150, 2000))]
    items += [('wild', i) for i in range(c.scale(2500, 15000))]
    for k, res in vp.pmap(one, items):
        if res is None:
            continue
        argv, bad, text = res
        c.case(repr((k[0] == 'errors', argv)), sample={'kind': k[0], 'arguments': [a[:40] for a in argv]})
        c.count(k[0])
        c.count('arguments', len(argv))
        if bad:
            c.violation('%s %s' % (k[0], re.sub(r"'.*|\d+", '', bad)[:90]), '%s\narguments: %r\n%s' % (bad, argv, text),
                        {'arguments.txt': '\n'.join(a.encode('utf-8', 'surrogateescape').decode('utf-8', 'replace') for a in argv)})
    c.finish(min_evaluations=400)


vp.main(main)
