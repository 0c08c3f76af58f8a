"""Files with test declarations and a model of what `cxy test` has to do with them (C23)."""
import collections

NAMES = ['plain', 'two words', 'tab\\there', 'quote \\" in', 'back\\\\slash', 'braces {} in', 'percent %s %d', 'dots ... / *', 'x' * 200,
         'é ü ñ', '-', 'main', 'test', "it's", '100%', '#hash', '$dollar', '//comment', '/* c */', 'a\\nb']


def shown(n):
    return n.replace('\\t', '\t').replace('\\n', '\n').replace('\\"', '"').replace('\\\\', '\\')


class Raise(Exception):
    def __init__(self, what, row):
        self.what, self.row = what, row


class File:
    """tests over shared state; `events` is what has to be seen"""

    def __init__(self, r, many=False):
        self.r = r
        self.rows = []
        self.info = collections.Counter()
        self.state = {'n': 0, 'h': 7}
        self.events = []      # (name, [printed], exception or None, row of a failing ok!)
        self.files = {}
        self.k = 0
        module = r.random() < 0.5
        if module:
            self.add('module %s' % r.choice(['a', 'suite', 'test7', 'tests', 'allTestCases', 'app']))
        self.imp = r.random() < 0.4
        if self.imp:
            self.files['lib.cxy'] = ('module lib\npub var seen: i32 = 3;\npub func give(x: i32) => x + seen\n'
                                     'test { var hidden: i32 = 4; func onlyTest() => hidden }\n'
                                     'test "of the library" { println("@library test ran"); seen = 100; ok!(false) }\n')
            self.add('import "./lib.cxy"')
            self.info['imports of a module with tests'] += 1
        self.timp = r.random() < 0.3
        if self.timp:
            self.files['tlib.cxy'] = 'module tlib\npub func twice(x: i32): i32 => x + x\n'
            self.add('import test "./tlib.cxy"')
            self.info['test imports'] += 1
        self.add('var n: i32 = 0;')
        self.add('exception E0(m: String) => m != null ? m.str(): ""')
        self.add('func bad(m: string, c: bool): !i32 { if (c) { raise E0(String(m)) } return 5`i32 }')
        # names near those that the runner makes up
        self.helpers = []
        for i in range(r.randint(0, 4)):
            nm = r.choice(['test%d' % (len(self.rows) + r.randint(-2, 9)), 'test', 'runTest%d' % i, 'allTests', 'tests', 'failed', 'run'])
            if nm == 'test' or nm in [h[0] for h in self.helpers]:
                continue
            v = r.randint(1, 90)
            self.helpers.append((nm, v))
            self.add('func %s() => %d`i32' % (nm, v))
        self.tdecl = r.random() < 0.6
        if self.tdecl:
            self.add('test { var h: i32 = 7; func addTo(x: i32): i32 => x + h')
            self.add('  struct Pair { a: i32; b: i32; } }')
            self.info['blocks of test declarations'] += 1
        cnt = r.choice([0, 1, 1, 2, 3, 4, 6, 9]) if not many else r.choice([127, 128, 129, 130, 200, 255, 256, 257, 300, 512])
        fail = r.choice([0.0, 0.0, 0.2, 0.6, 1.0]) if not many else r.choice([0.0, 1.0, 1.0, 1.0])
        names = []
        for i in range(cnt):
            n = r.choice(NAMES) if r.random() < 0.5 else 'case %d' % i
            if names and r.random() < 0.1:
                n = r.choice(names)
            names.append(n)
            self.test(n, fail, small=many)
        if r.random() < 0.5 or module and False:
            self.add('func main() { println("@main", n); }')
        else:
            self.add('func main(args: [string]): i32 { println("@main", n); return 0; }')
        self.info['tests'] += cnt
        self.info['failing tests'] += sum(1 for e in self.events if e[2])

    def add(self, t):
        self.rows.append(t)
        return len(self.rows)

    def test(self, name, fail, small):
        r = self.r
        out, exc = [], None
        lines = []
        oneline = r.random() < 0.3 or small
        row0 = len(self.rows) + 1
        same = bool(self.rows) and self.rows[-1].startswith('test "') and self.rows[-1].endswith('}') and r.random() < 0.3 and not small

        def row():
            return row0 if oneline else row0 + len(lines) + 1
        pend = []
        failing = r.random() < fail
        steps = r.randint(1, 2 if small else 6)
        at = r.randint(0, steps - 1) if failing else -1
        try:
            for i in range(steps):
                self.k += 1
                k = self.k
                if i == at:
                    c = r.randint(0, 4)
                    if c == 0:
                        lines.append('ok!(n == %d)' % (self.state['n'] + 1))
                        if exc is None:
                            exc = ('TestFailed', row0 if oneline else row0 + len(lines))
                    elif c == 1:
                        lines.append('bad("e%d", true)' % k)
                        exc = ('E0("e%d")' % k, None)
                    elif c == 2:
                        lines.append('raise E0("r%d".S)' % k)
                        exc = ('E0("r%d")' % k, None)
                    elif c == 3:
                        lines.append('if (n >= 0) { for (const i: 0..5) { if (i == 3) { bad("l%d", i == 3) } } }' % k)
                        exc = ('E0("l%d")' % k, None)
                    else:
                        lines.append('if (n >= 0) { defer println("@i%d"); ok!(n < 0) }' % k)
                        out.append('@i%d' % k)
                        exc = ('TestFailed', row0 if oneline else row0 + len(lines))
                    if r.random() < 0.5 and c != 2:
                        lines.append('println("@not reached")')
                        lines.append('n = 100000')
                    break
                c = r.randint(0, 9)
                if c <= 1:
                    d = r.randint(1, 9)
                    lines.append('n = n + %d' % d)
                    self.state['n'] += d
                    lines.append('ok!(n == %d)' % self.state['n'])
                elif c == 2:
                    lines.append('println("@p%d ", n)' % k)
                    out.append('@p%d %d' % (k, self.state['n']))
                elif c == 3:
                    lines.append('defer println("@d%d")' % k)
                    pend.append('@d%d' % k)
                elif c == 4 and self.tdecl:
                    lines.append('ok!(addTo(%d) == %d)' % (k, k + 7))
                    lines.append('println("@t ", Pair{a: %d, b: 2}.a)' % k)
                    out.append('@t %d' % k)
                elif c == 5 and self.helpers:
                    h = r.choice(self.helpers)
                    lines.append('ok!(%s() == %d)' % h)
                elif c == 6:
                    lines.append('bad("caught", true) catch 0`i32')
                    lines.append('ok!(bad("none", false) == 5)')
                elif c == 7 and self.imp:
                    lines.append('ok!(lib.give(%d) == %d)' % (k, k + 3))
                elif c == 8 and self.timp:
                    lines.append('ok!(tlib.twice(%d) == %d)' % (k, 2 * k))
                else:
                    lines.append('var s%d = "s%d".S; s%d << "-x"; println("@", s%d)' % (k, k, k, k))
                    out.append('@s%d-x' % k)
        finally:
            pass
        out += reversed(pend)
        head = 'test "%s" {' % name
        if oneline:
            t = head + ' ' + '; '.join(lines).replace('};', '}') + ' }'
            if same:
                # a second test of one row
                self.rows[-1] += ' ' + t
                if exc and exc[1]:
                    exc = (exc[0], len(self.rows))
            else:
                self.add(t)
        else:
            self.add(head)
            for x in lines:
                self.add('    ' + x)
            self.add('}')
        self.events.append((shown(name), out, exc))

    def text(self):
        return '\n'.join(self.rows) + '\n'
