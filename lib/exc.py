"""Random programs of raising functions, catch forms and defers, and the lines
they must print: a block's deferred statements run once each, last first, on
every way out of the block; the exception that arrives is the one raised."""
import coll  # noqa: F401


class Raise(Exception):
    def __init__(self, what):
        self.what = what


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Yield(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Fuel(Exception):
    pass


def rem(a, b):
    return a - b * int(a / b)


class Fn:
    def __init__(self, name, kind):
        self.name, self.kind, self.body = name, kind, None


KINDS = ['void', 'i32', 'String', 'Obj']


class Prog:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.fns = []
        for k in range(r.randint(2, 5)):
            f = Fn('f%d' % k, r.choice(KINDS) if k else 'void')
            self.cur, self.loop, self.catch = f, 0, None
            self.depth = 0
            self.vars = ['x']
            self.budget = r.randint(4, 14)
            f.body = self.block(top=True)
            self.fns.append(f)

    def id(self):
        self.n += 1
        return self.n

    # ---- statements: each is (text lines, run) where run(env) acts on the model
    def expr(self):
        r = self.r
        k = r.random()
        v = r.choice(self.vars)
        if k < 0.3:
            c = r.randint(0, 5)
            return str(c) + '`i32', lambda e: c
        if k < 0.6:
            return v, lambda e: e[v]
        if k < 0.8:
            c = r.randint(1, 3)
            return '%s + %d`i32' % (v, c), lambda e: e[v] + c
        n = self.id()
        return 'tick(%d`i32, %s)' % (n, v), lambda e: self.tick(n, e[v])

    def tick(self, n, v):
        self.out.append('k%d' % n)
        return v

    def cond(self):
        r = self.r
        v = r.choice(self.vars)
        k, m = r.randint(0, 3), r.choice([2, 3, 4])
        if r.random() < 0.5:
            return '%s == %d`i32' % (v, k), lambda e: e[v] == k
        k %= m
        return '%s %% %d`i32 == %d`i32' % (v, m, k), lambda e: e[v] % m == k

    def say(self, v=None):
        n = self.id()
        v = v or self.r.choice(self.vars)
        return 'println("t%d ", %s)' % (n, v), lambda e: self.out.append('t%d %d' % (n, e[v]))

    def newexc(self):
        r = self.r
        k = r.randrange(3)
        v = r.choice(self.vars)
        n = self.id()
        if k == 0:
            return 'E0(f"m%d.${%s}")' % (n, v), lambda e: 'm%d.%d' % (n, e[v])
        if k == 1:
            return 'E1()', lambda e: 'e1'
        return 'E2(%s)' % v, lambda e: 'e2'

    def value(self, kind):
        """an expression of that kind that does not raise -> (text, fn giving the printed form)"""
        t, f = self.expr()
        if kind == 'i32':
            return t, f
        if kind == 'String':
            n = self.id()
            return 'f"s%d.${%s}"' % (n, t), lambda e: 's%d.%d' % (n, f(e))
        return 'Obj(%s)' % t, f

    def block(self, top=False, need=None):
        """-> (lines, run). need: what the block has to end with ('yield', kind)"""
        r = self.r
        self.depth += 1
        mark = len(self.vars)
        stmts = []
        for _ in range(r.randint(2, 6) if top else r.randint(1, 3)):
            s = self.stmt()
            if s:
                stmts.append(s)
        if top and self.cur.kind != 'void':
            stmts.append(self.ret())
        elif need:
            stmts.append(need())
        del self.vars[mark:]
        self.depth -= 1
        lines = []
        for s in stmts:
            lines += s[0]
        runs = [s[1] for s in stmts]

        def run(e):
            own = []
            old = e.get(' defers')
            e[' defers'] = own
            try:
                for f in runs:
                    self.fuel -= 1
                    if self.fuel < 0:
                        raise Fuel()
                    f(e)
                    e[' defers'] = own
            finally:
                for d in reversed(own):
                    d(e)
                e[' defers'] = old
        return lines, run

    def ret(self):
        kind = self.cur.kind
        if kind == 'void':
            def run(e):
                raise Ret(None)
            return ['return;'], run
        if kind == 'Obj' and self.r.random() < 0.4:
            n = self.id()
            t, f = self.value('Obj')

            def run2(e):
                raise Ret(f(e))
            return ['var r%d = %s;' % (n, t), 'return r%d;' % n], run2
        t, f = self.value(kind)

        def run3(e):
            raise Ret(f(e))
        return ['return %s;' % t], run3

    def callee(self, kind=None):
        fs = [f for f in self.fns if kind is None or f.kind == kind]
        return self.r.choice(fs) if fs else None

    def invoke(self, f, v):
        e = {'x': v}
        try:
            f.body[1](e)
        except Ret as x:
            return x.v
        return None

    def handler(self, kind, value_used):
        """the right side of catch for a call of that kind -> (text lines, run(e, what) -> value)"""
        r = self.r
        k = r.random()
        if kind == 'void':
            if k < 0.25:
                return ['discard'], lambda e, w: None
        elif k < 0.35:
            t, f = self.value(kind)
            return [t], lambda e, w: f(e)
        if kind in ('String', 'Obj') and not getattr(self, 'objyield', True):
            t, f = self.value(kind)
            return [t], lambda e, w: f(e)
        first = None
        if r.random() < 0.7:
            n = self.id()
            first = (['println("c%d ", ex!.what());' % n], lambda e: self.out.append('c%d %s' % (n, e[' what'])))
        old, self.catch = self.catch, kind
        end = r.random()
        need = None
        if end < 0.3 and self.depth < 5:
            if r.random() < 0.5:
                def again():
                    def run(e):
                        raise Raise(e[' what'])
                    return ['raise;'], run
                need = again
            else:
                t, f = self.newexc()

                def other():
                    def run(e):
                        raise Raise(f(e))
                    return ['raise %s;' % t], run
                need = other
        elif kind != 'void':
            def give():
                t, f = self.value(kind)

                def run(e):
                    raise Yield(f(e))
                return ['yield %s;' % t], run
            need = give
        elif end < 0.45 and self.loop:
            need = self.leave
        elif end < 0.6:
            need = self.ret
        lines, run = self.block(need=need)
        self.catch = old
        if first:
            lines = first[0] + lines

        def act(e, what):
            save = e.get(' what')
            e[' what'] = what
            try:
                if first:
                    first[1](e)
                run(e)
            except Yield as y:
                return y.v
            finally:
                e[' what'] = save
        return ['{'] + ['    ' + l for l in lines] + ['}'], act

    def leave(self):
        if self.r.random() < 0.5:
            def run(e):
                raise Brk()
            return ['break;'], run

        def run2(e):
            raise Cont()
        return ['continue;'], run2

    def show(self, kind, name):
        if kind == 'i32':
            return 'println("v ", %s);' % name
        if kind == 'String':
            return 'println(f"v ${%s}");' % name
        return 'println("v ", %s.id);' % name

    def maybe(self, kind):
        """an expression of that kind that may raise or handle what is raised"""
        f = self.callee(kind)
        if not f or self.r.random() < 0.2:
            return self.value(kind)
        a, af = self.expr()
        call = '%s(%s)' % (f.name, a)
        if self.r.random() < 0.5:
            return call, lambda e: self.invoke(f, af(e))
        h, hf = self.handler(kind, True)

        def run(e):
            v = af(e)
            try:
                return self.invoke(f, v)
            except Raise as x:
                return hf(e, x.what)
        return '(%s catch %s)' % (call, '\n'.join(h)), run

    def conditional(self):
        r = self.r
        c, cf = self.cond()
        if r.random() < 0.5:
            n = 'y%d' % self.id()
            kind = r.choice(KINDS[1:])
            a, af = self.maybe(kind)
            b, bf = self.maybe(kind)

            def run(e):
                self.out.append('v %s' % (af(e) if cf(e) else bf(e)))
            return ('var %s = (%s) ? %s : %s;' % (n, c, a, b)).split('\n') + [self.show(kind, n)], run
        terms, fs = [c], [cf]
        for _ in range(r.randint(1, 2)):
            if r.random() < 0.3:
                t, f = self.cond()
            else:
                t, f = self.maybe('i32')
                k = r.randint(0, 5)
                t, f = '(%s) %% 3`i32 < %d`i32' % (t, k % 3 + 1), lambda e, f=f, k=k: rem(f(e), 3) < k % 3 + 1
            terms.append(t)
            fs.append(f)
        op = r.choice(['&&', '||'])
        l, g = self.block()
        l2, g2 = self.block()

        def run2(e):
            v = cf(e)
            for f in fs[1:]:
                if v == (op == '||'):
                    break
                v = f(e)
            (g if v else g2)(e)
        text = ('if (' + (' %s ' % op).join('(%s)' % t for t in terms) + ') {').split('\n')
        return text + ['    ' + x for x in l] + ['} else {'] + ['    ' + x for x in l2] + ['}'], run2

    def stmt(self):
        r = self.r
        self.budget -= 1
        if self.budget < 0 or self.depth > 4:
            t, f = self.say()
            return [t + ';'], f
        k = r.random()
        if k < 0.12:
            t, f = self.say()
            return [t + ';'], f
        if k < 0.28:
            # defers, of one statement or a block
            a = self.say()
            how = r.random()
            if how < 0.15:
                # defers of their own, inside and in a loop
                b, c, d = self.say(), self.say(), self.say()
                t = 'defer { defer %s; %s; for (const q: 0..2) { defer { %s; } %s; } }' % (a[0], b[0], c[0], d[0])
                fs = [b[1], d[1], c[1], d[1], c[1], a[1]]
            elif how < 0.6:
                t, fs = 'defer ' + a[0] + ';', [a[1]]
            else:
                b = self.say()
                t, fs = 'defer { %s; %s; }' % (a[0], b[0]), [a[1], b[1]]
            return [t], lambda e: e[' defers'].append(lambda e2: [f(e2) for f in fs])
        if k < 0.36:
            n = self.id()
            t, f = self.expr()
            return ['var o%d = Obj(%s); println("o ", o%d.id);' % (n, t, n)], lambda e: self.out.append('o %d' % f(e))
        if k < 0.42:
            n = 'v%d' % self.id()
            t, f = self.expr()

            def run(e):
                e[n] = f(e)
            self.vars.append(n)
            return ['var %s: i32 = %s;' % (n, t)], run
        if k < 0.46 and len(self.vars) > 1:
            n = r.choice([v for v in self.vars if v != 'x'])
            if n[0] != 'j':
                t, f = self.expr()

                def run(e):
                    e[n] = f(e)
                return ['%s = %s;' % (n, t)], run
        if k < 0.56:
            c, cf = self.cond()
            l, f = self.block()
            if r.random() < 0.4:
                l2, f2 = self.block()
            else:
                l2, f2 = None, None
            lines = ['if (%s) {' % c] + ['    ' + x for x in l] + ['}']
            if l2 is not None:
                lines += ['else {'] + ['    ' + x for x in l2] + ['}']

            def run(e):
                if cf(e):
                    f(e)
                elif f2:
                    f2(e)
            return lines, run
        if k < 0.66:
            # leave conditionally
            c, cf = self.cond()
            ways = ['raise', 'raise', 'ret'] + (['leave', 'leave'] if self.loop else [])
            w = r.choice(ways)
            if w == 'raise':
                t, f = self.newexc()

                def run(e):
                    if cf(e):
                        raise Raise(f(e))
                return ['if (%s) raise %s;' % (c, t)], run
            l, f = self.ret() if w == 'ret' else self.leave()

            def run(e):
                if cf(e):
                    f(e)
            return ['if (%s) { %s }' % (c, ' '.join(l))], run
        if k < 0.75 and self.loop < 2:
            n = 'j%d' % self.id()
            times = r.randint(1, 4)
            self.loop += 1
            self.vars.append(n)
            oc, self.catch = self.catch, None
            l, f = self.block()
            self.catch = oc
            self.vars.remove(n)
            self.loop -= 1
            w = r.random() < 0.4
            if w:
                c = n + 'c'
                lines = ['var %s = 0`i32;' % c, 'while (%s < %d`i32) {' % (c, times), '    var %s: i32 = %s;' % (n, c),
                         '    %s = %s + 1`i32;' % (c, c)] + ['    ' + x for x in l] + ['}']
            else:
                lines = ['for (const %sw: 0..%d) {' % (n, times), '    var %s: i32 = <i32>%sw;' % (n, n)] + \
                        ['    ' + x for x in l] + ['}']

            def run(e):
                for j in range(times):
                    e[n] = j
                    try:
                        f(e)
                    except Brk:
                        break
                    except Cont:
                        continue
            return lines, run
        if k > 0.93:
            got = self.conditional()
            if got:
                return got
        # calls
        f = self.callee()
        if not f:
            t, g = self.say()
            return [t + ';'], g
        a, af = self.expr()
        call = '%s(%s)' % (f.name, a)
        how = r.random()
        if f.kind == 'void':
            if how < 0.3:
                return [call + ';'], lambda e: self.invoke(f, af(e))
            h, hf = self.handler('void', False)

            def run(e):
                v = af(e)
                try:
                    self.invoke(f, v)
                except Raise as x:
                    hf(e, x.what)
            h[-1] += ';'
            return [call + ' catch ' + h[0]] + h[1:], run
        n = 'y%d' % self.id()
        fmtv = (lambda v: 'v %s' % v)
        if how < 0.3:
            def run(e):
                self.out.append(fmtv(self.invoke(f, af(e))))
            return ['var %s = %s;' % (n, call), self.show(f.kind, n)], run
        if how < 0.45 and self.cur.kind == f.kind and self.depth > 1:
            def run(e):
                raise Ret(self.invoke(f, af(e)))
            c, cf = self.cond()

            def guarded(e):
                if cf(e):
                    run(e)
            return ['if (%s) { return %s; }' % (c, call)], guarded
        h, hf = self.handler(f.kind, True)
        assign = f.kind == 'i32' and r.random() < 0.4

        def run(e):
            v = af(e)
            try:
                got = self.invoke(f, v)
            except Raise as x:
                got = hf(e, x.what)
            self.out.append(fmtv(got))
        h[-1] += ';'
        if assign:
            return ['var %s: i32 = 0`i32;' % n, '%s = %s catch %s' % (n, call, h[0])] + h[1:] + [self.show(f.kind, n)], run
        return ['var %s = %s catch %s' % (n, call, h[0])] + h[1:] + [self.show(f.kind, n)], run

    # ----
    def text(self):
        o = ['var live: i64 = 0`i64;', '',
             'exception E0(msg: String) => msg != null ? msg.str() : ""', 'exception E1 => "e1"',
             'exception E2(a: i32) { return "e2" }', '',
             'class Obj {', '    id: i32;', '    func `init`(id: i32) { this.id = id; live = live + 1`i64; }',
             '    func `deinit`() { live = live - 1`i64; }', '}', '',
             'func tick(n: i32, v: i32): i32 { println("k", n); return v }', '']
        for f in self.fns:
            o.append('func %s(x: i32): !%s {' % (f.name, f.kind))
            o += ['    ' + l for l in f.body[0]]
            o += ['}', '']
        o.append('func main() {')
        o.append('    for (const w: 0..%d) {' % self.rounds)
        o.append('        var x: i32 = <i32>w;')
        for f in self.fns:
            o.append('        println("%s(", x, ")");' % f.name)
            if f.kind == 'void':
                o.append('        %s(x) catch { println("main ", ex!.what()) };' % f.name)
            else:
                z = {'i32': '-1`i32', 'String': 'String("none")', 'Obj': 'Obj(-1`i32)'}[f.kind]
                o.append('        var z%s = %s(x) catch { println("main ", ex!.what()); yield %s };' % (f.name, f.name, z))
                o.append('        ' + self.show(f.kind, 'z' + f.name))
        o += ['    }', '    println("live ", live);', '}', '']
        return '\n'.join(o)

    rounds = 4

    def run(self):
        self.out = []
        self.fuel = 4000
        for w in range(self.rounds):
            for f in self.fns:
                self.out.append('%s(%d)' % (f.name, w))
                none = {'void': None, 'i32': -1, 'String': 'none', 'Obj': -1}[f.kind]
                try:
                    v = self.invoke(f, w)
                except Raise as x:
                    self.out.append('main ' + x.what)
                    v = none
                if f.kind != 'void':
                    self.out.append('v %s' % v)
        self.out.append('live (0)')
        self.out[-1] = 'live 0'
        return self.out


def make(r):
    while True:
        p = Prog(r)
        try:
            out = p.run()
        except Fuel:
            continue
        if len(out) > 3000:
            continue
        return p.text(), out
