"""Ownership histories: programs over objects whose class reports construction
("+id") and destruction ("-id"), with a model that knows at every point which
objects are reachable.  A history is a tree of statements, rendered once as cxy
and executed on the model; the trace of the program is then judged:

 * every line that is not a destruction is as the model says, in order
 * an object is destroyed once, after its construction
 * never while the model can still reach it from a live variable
 * at the end of every scenario function none of its objects is left
 * in strict histories (no temporaries): the destruction happens at the
   statement at which the last reference goes
"""

PRE = '''var gid = 0`i64;
struct It { n: i64; func `..`() { var i = 0`i64; var n = this.n; return (): Optional[i64] => { if (i < n) { i = i + 1`i64; return Some[i64](i); } return None[i64](); }; } }
class R { id: i64; n: i64;
  func `init`(n: i64) { gid = gid + 1`i64; this.id = gid; this.n = n; println("+", id); }
  func `deinit`() { println("-", id); n = -999`i64; }
  func get(): i64 => n
  func put(n: i64) { this.n = n; } }
struct S { r: R; k: i64 = 0`i64; func got(): R => r func val(): i64 => r.n + k }
struct D { s: S; r: R; }
class B { id: i64; r: R;
  func `init`(r: R) { gid = gid + 1`i64; this.id = gid; this.r = r; println("+", id); }
  func `deinit`() { println("-", id); }
  func get(): R => r
  func set(r: R) { this.r = r; }
  func swap(r: R): R { var o = this.r; this.r = r; return o; } }
class N { id: i64; next: N = null;
  func `init`() { gid = gid + 1`i64; this.id = gid; println("+", id); }
  func `deinit`() { println("-", id); }
  func link(o: N) { next = o; }
  func cut() { next = null; }
  func len(): i64 { if (next == null) return 1`i64; return next.len() + 1`i64; } }
func mk(n: i64): R => R(n)
func same(r: R): R => r
func pick(a: R, b: R, c: bool): R { if (c) return a; return b; }
func fresh(a: R, c: bool): R { var t = R(a.n + 1`i64); if (c) { return t; } return a; }
func mks(n: i64): S => S{r: R(n), k: n}
func wrap(r: R, k: i64): S => S{r: r, k: k}
func ops(s: S): S => S{r: s.r, k: s.k + 1`i64}
func opt(r: R, c: bool): R? { if (c) return r; return null; }
func unf(r: R, c: bool): R|i64 { if (c) return r; return 7`i64; }
func tup(r: R, k: i64): (R, i64) => (r, k)
func eat(r: R): i64 { var x = r; x.put(x.get() + 1`i64); return x.n; }
func mkn(o: N): N { var n = N(); n.link(o); return n; }
'''


class Obj:
    __slots__ = ('id', 'kind', 'f')

    def __init__(self, id, kind, **f):
        self.id, self.kind, self.f = id, kind, f


class Val(dict):
    """A value (struct, tuple, union, optional): copied on assignment."""

    def copy(self):
        return Val({k: v.copy() if isinstance(v, Val) else v for k, v in self.items()})


def reach(v, seen):
    if isinstance(v, Obj):
        if v.id in seen:
            return
        seen.add(v.id)
        for x in v.f.values():
            reach(x, seen)
    elif isinstance(v, Val):
        for x in v.values():
            reach(x, seen)


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    pass


class M:
    """Model state: scopes of variables, trace of expected lines."""

    def __init__(self):
        self.scopes, self.trace, self.gid, self.steps = [], [], 0, 0
        self.extra = []

    def new(self, kind, **f):
        self.gid += 1
        o = Obj(self.gid, kind, **f)
        # reachable while it is constructed and stored
        self.line('+%d' % self.gid)
        return o

    def line(self, s):
        self.trace.append(('line', s))

    def live(self):
        s = set()
        for sc in self.scopes:
            for _, v in sc.items():
                reach(v, s)
        return s

    def mark(self):
        """a point between statements"""
        self.steps += 1
        self.trace.append(('live', frozenset(self.live())))

    def get(self, n):
        for sc in reversed(self.scopes):
            if n in sc:
                return sc[n]
        raise KeyError(n)

    def set(self, n, v):
        for sc in reversed(self.scopes):
            if n in sc:
                sc[n] = v
                return
        raise KeyError(n)

    def push(self):
        self.scopes.append({})

    def pop(self):
        sc = self.scopes[-1]
        while sc:
            sc.popitem()
            self.trace.append(('live', frozenset(self.live())))
        self.scopes.pop()


class Gen:
    """One scenario function."""

    def __init__(self, r, u, strict):
        self.r, self.u, self.strict = r, u, strict
        self.n = 0
        self.vars = []          # [name, type, depth, loop depth, flags]
        self.depth = self.loop = 0
        self.budget = r.randint(8, 26)
        self.hasret = False

    # ---- expressions: (text, fn(M) -> value)
    def name(self):
        self.n += 1
        return 'v%dx' % self.n

    def pick(self, t, own=False):
        c = [v for v in self.vars if v[1] == t and not v[4]]
        return self.r.choice(c) if c else None

    def num(self):
        self.u[0] += 1
        return self.u[0]

    def exprR(self, simple=False):
        """an expression of type R: (text, fn, needs a temporary?)"""
        r = self.r
        opts = ['new', 'mk']
        v = self.pick('R')
        if v:
            opts += ['var'] * 4
        if not self.strict and not simple:
            if v:
                opts += ['same', 'pick', 'fresh', 'tern']
            for t, k in (('S', 'Sr'), ('B', 'Br'), ('T', 'T0'), ('S', 'Sgot'), ('B', 'Bget'), ('D', 'Dsr')):
                if self.pick(t):
                    opts += [k]
        elif not simple:
            for t, k in (('S', 'Sr'), ('B', 'Br'), ('T', 'T0')):
                if self.pick(t):
                    opts += [k]
        o = r.choice(opts)
        if o == 'new':
            n = self.num()
            return 'R(%d`i64)' % n, lambda m: m.new('R', n=n)
        if o == 'mk':
            n = self.num()
            return 'mk(%d`i64)' % n, lambda m: m.new('R', n=n)
        if o == 'var':
            return v[0], lambda m: m.get(v[0])
        if o == 'same':
            e, f = self.exprR(True)
            return 'same(%s)' % e, f
        if o == 'pick':
            e, f = self.exprR(True)
            e2, f2 = self.exprR(True)
            c = r.random() < .5

            def go(m):
                a = f(m)
                m.extra.append(a)
                b = f2(m)
                m.extra.pop()
                return a if c else b
            return 'pick(%s, %s, %s)' % (e, e2, 'true' if c else 'false'), go
        if o == 'fresh':
            c = r.random() < .5

            def go(m):
                a = m.get(v[0])
                t = m.new('R', n=a.f['n'] + 1)
                return t if c else a
            return 'fresh(%s, %s)' % (v[0], 'true' if c else 'false'), go
        if o == 'tern':
            k = r.choice([0, 20, 60, 999999])
            e, f = self.exprR(True)
            e2, f2 = self.exprR(True)
            return '(%d`i64 < %s.n ? %s : %s)' % (k, v[0], e, e2), \
                lambda m: f(m) if m.get(v[0]).f['n'] > k else f2(m)
        if o == 'Sr':
            s = self.pick('S')
            return s[0] + '.r', lambda m: m.get(s[0])['r']
        if o == 'Sgot':
            s = self.pick('S')
            return s[0] + '.got()', lambda m: m.get(s[0])['r']
        if o == 'Br':
            s = self.pick('B')
            return s[0] + '.r', lambda m: m.get(s[0]).f['r']
        if o == 'Bget':
            s = self.pick('B')
            return s[0] + '.get()', lambda m: m.get(s[0]).f['r']
        if o == 'Dsr':
            s = self.pick('D')
            return s[0] + '.s.r', lambda m: m.get(s[0])['s']['r']
        if o == 'T0':
            s = self.pick('T')
            return s[0] + '.0', lambda m: m.get(s[0])['0']

    def R(self, simple=False):
        return self.exprR(simple)

    def expr(self, t, depth=0):
        r, strict = self.r, self.strict
        v = self.pick(t)
        if v and r.random() < .3:
            return v[0], lambda m: cp(m.get(v[0]))
        if t == 'R':
            return self.R()
        if not strict and t in ('S', 'B', 'T', 'D') and depth < 2 and self.pick('R') and r.random() < .12:
            c = self.pick('R')
            k = r.choice([0, 20, 60, 999999])
            e, f = self.expr(t, depth + 1)
            e2, f2 = self.expr(t, depth + 1)
            return '(%d`i64 < %s.n ? %s : %s)' % (k, c[0], e, e2), \
                lambda m: f(m) if m.get(c[0]).f['n'] > k else f2(m)
        if t == 'S':
            o = r.choice(['lit', 'lit', 'mks', 'wrap', 'ops', 'D'])
            if o == 'ops' and v and not strict:
                return 'ops(%s)' % v[0], lambda m: Val(r=m.get(v[0])['r'], k=m.get(v[0])['k'] + 1)
            if o == 'D' and self.pick('D'):
                d = self.pick('D')
                return d[0] + '.s', lambda m: m.get(d[0])['s'].copy()
            if o == 'mks' and not strict:
                n = self.num()
                return 'mks(%d`i64)' % n, lambda m: Val(r=m.new('R', n=n), k=n)
            k = r.randint(0, 9)
            e, f = self.R()
            if o == 'wrap' and not strict:
                return 'wrap(%s, %d`i64)' % (e, k), lambda m: Val(r=f(m), k=k)
            return 'S{r: %s, k: %d`i64}' % (e, k), lambda m: Val(r=f(m), k=k)
        if t == 'D':
            e, f = self.R(True)
            s = self.pick('S')
            if s and r.random() < .5:
                return 'D{s: %s, r: %s}' % (s[0], e), lambda m: Val(s=m.get(s[0]).copy(), r=f(m))
            k = r.randint(0, 9)
            e2, f2 = self.R(True)

            def go(m):
                a = f2(m)
                return Val(s=Val(r=a, k=k), r=f(m))
            return 'D{s: S{r: %s, k: %d`i64}, r: %s}' % (e2, k, e), go
        if t == 'B':
            e, f = self.R(strict)
            def go(m):
                a = f(m)
                return m.new('B', r=a)
            return 'B(%s)' % e, go
        if t == 'N':
            if v and r.random() < .6:
                def go(m):
                    a = m.get(v[0])
                    return m.new('N', next=a)
                return 'mkn(%s)' % v[0], go
            return 'N()', lambda m: m.new('N', next=None)
        if t == 'T':
            e, f = self.R()
            k = r.randint(0, 9)
            if strict or r.random() < .5:
                return '(%s, %d`i64)' % (e, k), lambda m: Val({'0': f(m), '1': k})
            return 'tup(%s, %d`i64)' % (e, k), lambda m: Val({'0': f(m), '1': k})
        if t == 'O':
            e, f = self.R(True)
            c = r.random() < .7
            return 'opt(%s, %s)' % (e, 'true' if c else 'false'), lambda m: Val(v=f(m) if c else drop(f(m)))
        if t == 'U':
            e, f = self.R(True)
            c = r.random() < .7
            return 'unf(%s, %s)' % (e, 'true' if c else 'false'), lambda m: Val(v=f(m) if c else drop(f(m), 7))
        raise KeyError(t)

    # ---- statements: (lines, fn(M))
    def block(self, n, loop=False):
        """a list of statements in a new scope"""
        self.depth += 1
        self.loop += loop
        keep = len(self.vars)
        moved = [(v, v[4]) for v in self.vars]
        out = []
        for _ in range(n):
            if self.budget <= 0:
                break
            self.budget -= 1
            s = self.stmt()
            if s:
                out.append(s)
                if s[2:]:
                    break
        del self.vars[keep:]
        self.depth -= 1
        self.loop -= loop
        lines = [l for s in out for l in s[0]]

        def go(m):
            m.push()
            try:
                for s in out:
                    s[1](m)
                    m.mark()
            finally:
                m.pop()
        return ['  ' + l for l in lines], go

    def stmt(self):
        r = self.r
        strict = self.strict
        k = r.random()
        types = ['R', 'R', 'R', 'S', 'B', 'T', 'N'] if strict else ['R', 'R', 'R', 'S', 'S', 'B', 'B', 'T', 'N', 'O', 'U', 'D']
        if k < .32 or not self.vars:
            t = r.choice(types)
            n = self.name()
            v = [n, t, self.depth, self.loop, '']
            if t in 'RB' and r.random() < .1:
                v[4] = 'unset'
                self.vars.append(v)

                def go(m):
                    m.scopes[-1][n] = None
                return ['var %s: %s;' % (n, t)], go
            e, f = self.expr(t)

            def go(m):
                m.scopes[-1][n] = f(m)
            self.vars.append(v)
            return ['var %s = %s;' % (n, e)], go
        if k < .5:
            v = self.pick(r.choice(types))
            gone = [w for w in self.vars if w[4]]
            if gone and r.random() < .4:
                # moved or deleted, on some path at least: gets a new value
                v = r.choice(gone)
                e, f = self.expr(v[1])
                if v[2] == self.depth:
                    v[4] = ''
                return ['%s = %s;' % (v[0], e)], lambda m: m.set(v[0], f(m))
            if not v:
                return None
            e, f = self.expr(v[1])
            return ['%s = %s;' % (v[0], e)], lambda m: m.set(v[0], f(m))
        if k < .62:
            return self.mutate()
        if k < .74:
            return self.show()
        if k < .80 and not self.strict:
            return self.calls()
        if k < .83:
            v = self.pick('R') or self.pick('B')
            if v and v[3] < self.loop and v[1] == 'R':
                n = self.num()

                def go(m):
                    kill(m, v[0])
                    m.mark()
                    m.set(v[0], m.new('R', n=n))
                return ['delete %s;' % v[0], '%s = mk(%d`i64);' % (v[0], n)], go
            if v and v[3] == self.loop:
                v[4] = 'moved'
                if r.random() < .5 and not strict and v[1] == 'R':
                    def go(m):
                        o = m.get(v[0])
                        o.f['n'] += 1
                        kill(m, v[0])
                        m.mark()
                        m.line(str(o.f['n']))
                    return ['println(eat(&&%s));' % v[0]], go
                if r.random() < .5:
                    return ['delete %s;' % v[0]], lambda m: kill(m, v[0])
                n = self.name()
                self.vars.append([n, v[1], self.depth, self.loop, ''])

                def go(m):
                    o = m.get(v[0])
                    kill(m, v[0])
                    m.scopes[-1][n] = o
                return ['var %s = &&%s;' % (n, v[0])], go
            return None
        if k < .90:
            return self.cond()
        if k < .96 and self.depth < 4:
            return self.loops()
        if self.depth > 1 and r.random() < .6:
            if self.loop and r.random() < .6:
                b = r.random() < .5

                def go(m):
                    raise (Break if b else Continue)()
                return ['break;' if b else 'continue;'], go, True

            def go(m):
                raise Return()
            return ['return %d`i64;' % self.num(), ], go, True
        return None

    def mutate(self):
        r = self.r
        t = r.choice(['S', 'B', 'T', 'N', 'D', 'R'])
        v = self.pick(t)
        if not v:
            return None
        n = v[0]
        if t == 'R':
            x = self.num()
            return ['%s.put(%d`i64);' % (n, x)], lambda m: m.get(n).f.update(n=x)
        if t == 'N':
            w = self.pick('N')
            o = r.choice(['link', 'next', 'cut', 'null'])
            if o in ('link', 'next'):
                # only towards objects without a path back: cycles are leaks by design
                e, f = ('mkn(%s)' % w[0], None) if r.random() < .5 and not self.strict else ('N()', None)

                def go(m):
                    x = m.new('N', next=m.get(w[0]) if e[0] == 'm' else None)
                    if reaches(x, m.get(n)):
                        x.f['next'] = None
                    m.get(n).f['next'] = x
                if e[0] == 'm':
                    return None
                if o == 'link':
                    return ['%s.link(%s);' % (n, e)], go
                return ['%s.next = %s;' % (n, e)], go
            return ['%s.cut();' % n if o == 'cut' else '%s.next = null;' % n], lambda m: m.get(n).f.update(next=None)
        if t == 'D':
            e, f = self.R(True)
            if r.random() < .5:
                def go(m):
                    m.get(n)['s']['r'] = f(m)
                return ['%s.s.r = %s;' % (n, e)], go

            def go(m):
                m.get(n)['r'] = f(m)
            return ['%s.r = %s;' % (n, e)], go
        e, f = self.R()
        if t == 'S':
            def go(m):
                m.get(n)['r'] = f(m)
            return ['%s.r = %s;' % (n, e)], go
        if t == 'T':
            def go(m):
                m.get(n)['0'] = f(m)
            return ['%s.0 = %s;' % (n, e)], go
        o = r.choice(['set', 'r', 'swap'] if not self.strict else ['r'])
        if o == 'swap':
            x = self.name()

            def go(m):
                b = m.get(n)
                a = f(m)
                m.scopes[-1][x], b.f['r'] = b.f['r'], a
            self.vars.append([x, 'R', self.depth, self.loop, ''])
            return ['var %s = %s.swap(%s);' % (x, n, e)], go

        def go(m):
            a = f(m)
            m.get(n).f['r'] = a
        return ['%s.set(%s);' % (n, e) if o == 'set' else '%s.r = %s;' % (n, e)], go

    def show(self):
        r = self.r
        v = r.choice(self.vars)
        if v[4]:
            return None
        n, t = v[0], v[1]
        st = self.strict
        if t == 'R':
            e = r.choice([n + '.n', n + '.get()'])
            return ['println(%s);' % e], lambda m: m.line(str(m.get(n).f['n']))
        if t == 'S':
            e = r.choice([n + '.r.n', n + '.val() - %s.k' % n] + ([] if st else [n + '.got().n']))
            return ['println(%s);' % e], lambda m: m.line(str(m.get(n)['r'].f['n']))
        if t == 'B':
            e = r.choice([n + '.r.n', n + '.r.get()'] + ([] if st else [n + '.get().n', n + '.get().get()']))
            return ['println(%s);' % e], lambda m: m.line(str(m.get(n).f['r'].f['n']))
        if t == 'T':
            return ['println(%s.0.n);' % n], lambda m: m.line(str(m.get(n)['0'].f['n']))
        if t == 'D':
            e, a = r.choice([('%s.s.r.n', 's'), ('%s.r.n', 'r'), ('%s.s.val()', 'v')])

            def go(m):
                d = m.get(n)
                m.line(str({'s': d['s']['r'].f['n'], 'r': d['r'].f['n'], 'v': d['s']['r'].f['n'] + d['s']['k']}[a]))
            return ['println(%s);' % (e % n)], go
        if t == 'N':
            def go(m):
                k, o = 0, m.get(n)
                while o:
                    k, o = k + 1, o.f['next']
                m.line(str(k))
            return ['println(%s.len());' % n], go
        z = self.name()
        if t == 'O':
            def go(m):
                o = m.get(n)['v']
                m.line(str(o.f['n']) if o else 'none')
            return ['if (var %s = %s) { println((*%s).n); } else { println("none"); }' % (z, n, z)], go

        def go(m):
            o = m.get(n)['v']
            m.line(str(o.f['n'] if isinstance(o, Obj) else o))
        return ['match (%s) { case R as %s => { println(%s.n); } case i64 as %s => { println(%s); } }' % (n, z, z, z, z)], go

    def calls(self):
        r = self.r
        o = r.choice(['stmt', 'eat', 'null', 'temp'])
        if o == 'stmt':
            t = r.choice(['R', 'S', 'B', 'O', 'U', 'N', 'T'])
            e, f = self.expr(t)
            if '(' not in e or e[0] == '(' or '{' in e or e.endswith('.r'):
                return None
            return ['%s;' % e], lambda m: f(m) and None
        if o == 'eat':
            e, f = self.R(True)

            def go(m):
                a = f(m)
                a.f['n'] += 1
                m.line(str(a.f['n']))
            return ['println(eat(%s));' % e], go
        if o == 'temp':
            e, f = self.R(True)
            k = r.randint(0, 9)
            if r.random() < .5:
                return ['println(wrap(%s, %d`i64).got().n);' % (e, k)], lambda m: m.line(str(f(m).f['n']))
            return ['println(tup(same(%s), %d`i64).0.get());' % (e, k)], lambda m: m.line(str(f(m).f['n']))
        v = self.pick('O')
        if v:
            return ['%s = null;' % v[0]], lambda m: m.set(v[0], Val(v=None))
        return None

    def condition(self):
        r = self.r
        c = [v for v in self.vars if v[1] == 'R' and not v[4]]
        if c and r.random() < .7:
            v = r.choice(c)
            k = r.randint(0, self.u[0] + 2)
            return '%s.n > %d`i64' % (v[0], k), lambda m: m.get(v[0]).f['n'] > k
        b = r.random() < .5
        self.u[1] += 1
        return '%s.n == %d`i64' % ('g1', 0 if b else 1) if False else ('flag(%s)' % ('true' if b else 'false')), lambda m: b

    def cond(self):
        r = self.r
        e, f = self.condition()
        a, fa = self.block(r.randint(1, 4))
        if r.random() < .5:
            b, fb = self.block(r.randint(1, 4))
            if r.random() < .3:
                k = r.randint(0, 2)
                c, fc = self.block(r.randint(1, 3))

                def go(m):
                    # a break leaves the switch
                    try:
                        (fa, fb, fc)[k](m)
                    except Break:
                        pass
                return (['switch (num(%d`i64)) {' % k, '  case 0`i64 => {'] + a + ['  }', '  case 1`i64 => {'] + b +
                        ['  }', '  default => {'] + c + ['  }', '}']), go
            return ['if (%s) {' % e] + a + ['} else {'] + b + ['}'], lambda m: fa(m) if f(m) else fb(m)
        return ['if (%s) {' % e] + a + ['}'], lambda m: fa(m) if f(m) else None

    def loops(self):
        r = self.r
        n = r.randint(1, 3)
        i = self.name()
        a, fa = self.block(r.randint(1, 5), True)

        def go(m):
            for _ in range(n):
                try:
                    fa(m)
                except Continue:
                    continue
                except Break:
                    break
        w = r.random()
        if w < .35:
            return ['for (const %s: 0..%d) {' % (i, n)] + a + ['}'], go
        if w < .5:
            return ['var a%s = [%s];' % (i, ', '.join(['1`i64'] * n)), 'for (const %s: a%s) {' % (i, i)] + a + ['}'], go
        if w < .6:
            return ['for (const %s: "%s") {' % (i, 'x' * n)] + a + ['}'], go
        if w < .75:
            return ['var a%s = It{n: %d};' % (i, n), 'for (const %s: a%s) {' % (i, i)] + a + ['}'], go
        return ['var %s = 0`i64;' % i, 'while (%s < %d`i64) {' % (i, n), '  %s = %s + 1`i64;' % (i, i)] + a + ['}'], go


def drop(v, w=None):
    return w


def kill(m, n):
    m.set(n, None)


def cp(v):
    return v.copy() if isinstance(v, Val) else v


def reaches(a, b):
    s = set()
    reach(a, s)
    return b.id in s


def build(r, n=None):
    """(text, trace) of a program of several scenario functions"""
    text, m = [PRE, 'func flag(b: bool): bool => b\nfunc num(b: i64): i64 => b'], M()
    u = [0, 0]
    names = []
    for k in range(n or r.randint(2, 5)):
        strict = r.random() < .4
        g = Gen(r, u, strict)
        body, go = g.block(12)
        text.append('func scen%d(): i64 {\n%s\n  return 0`i64;\n}' % (k, '\n'.join(body)))
        names.append(('scen%d' % k, go, strict))
    main = []
    for nm, go, strict in names:
        for _ in range(r.choice([1, 1, 2])):
            main.append('  println("[%s"); %s(); println("]%s");' % (nm, nm, nm))
            m.trace.append(('begin', strict))
            m.line('[' + nm)
            try:
                go(m)
            except Return:
                pass
            assert not m.scopes
            m.trace.append(('end', nm))
            m.line(']' + nm)
    text.append('func main() {\n%s\n}' % '\n'.join(main))
    return '\n'.join(text) + '\n', m.trace


def judge(out, trace):
    """None, or what is wrong with the output `out` of the program"""
    lines = out.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    born, dead = set(), set()
    live = frozenset()
    i = 0
    strict = False
    n = len(trace)
    # the states of the model between two expected lines
    k = 0
    pend = []
    while True:
        # collect model states up to the next expected line
        states = []
        exp = None
        ended = None
        nstrict = strict
        while k < n:
            e = trace[k]
            k += 1
            if e[0] == 'live':
                states.append(e[1])
            elif e[0] == 'begin':
                nstrict = e[1]
            elif e[0] == 'end':
                ended = e[1]
            else:
                exp = e[1]
                break
        got = []
        while i < len(lines) and lines[i][:1] == '-':
            got.append(lines[i])
            i += 1
        ids = []
        for g in got:
            try:
                d = int(g[1:])
            except ValueError:
                return 'unexpected output %r' % g
            if d not in born:
                return 'destroyed before it was made (or already freed): %r' % g
            if d in dead:
                return 'object %d destroyed twice' % d
            dead.add(d)
            ids.append(d)
        last = states[-1] if states else live
        for d in ids:
            if d in last:
                return 'object %d destroyed while still reachable, before line %r' % (d, exp)
        if strict and nstrict == strict:
            left = sorted(d for d in born - dead if d not in last)
            if states and left:
                return 'objects %r are unreachable before line %r and were not destroyed' % (left, exp)
        if ended is not None and born - dead:
            return 'objects %r were not destroyed by the end of %s' % (sorted(born - dead), ended)
        if states:
            live = last
        strict = nstrict
        if exp is None:
            if i < len(lines):
                return 'more output than expected: %r' % lines[i]
            return None
        if i >= len(lines):
            return 'output ends before %r' % exp
        if lines[i] != exp:
            return 'line %d: expected %r, got %r' % (i + 1, exp, lines[i])
        if exp[:1] == '+':
            born.add(int(exp[1:]))
        i += 1
