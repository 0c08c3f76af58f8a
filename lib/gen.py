"""Random well-typed programs with their meaning.

A program is built as a tree of nodes that both render to cxy and evaluate in
Python.  Evaluation is strict: an operation whose C meaning is undefined or that
leaves the range of its type raises Trap; `repair` then replaces the offending
node, so that the finished program has one defined output, the oracle."""
import struct as _struct

INTS = ['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64']
FLOATS = ['f64', 'f32']
SCALARS = INTS + FLOATS + ['bool', 'string']


def bits(t):
    return int(t[1:])


def signed(t):
    return t[0] == 'i'


def lo(t):
    return -(1 << (bits(t) - 1)) if signed(t) else 0


def hi(t):
    return (1 << (bits(t) - 1)) - 1 if signed(t) else (1 << bits(t)) - 1


def isint(t):
    return t in INTS


def isfloat(t):
    return t in FLOATS


def f32(x):
    return _struct.unpack('f', _struct.pack('f', x))[0]


def wrap(v, t):
    v &= (1 << bits(t)) - 1
    return v - (1 << bits(t)) if signed(t) and v >> (bits(t) - 1) else v


class Trap(Exception):
    def __init__(self, node, why):
        self.node, self.why = node, why


class Fuel(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Raised(Exception):
    """A cxy exception value travelling through Python frames."""
    def __init__(self, v):
        self.v = v


def fmt(v, t):
    if t == 'bool':
        return 'true' if v else 'false'
    if isfloat(t):
        return '%g' % v
    if t in SCALARS:
        return str(v)
    return t.fmt(v)


# --------------------------------------------------------------------------
# aggregate types
# --------------------------------------------------------------------------
class TStruct:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields      # [(name, type)]
        self.methods = []
        self.ops = {}

    def render(self):
        return self.name

    def copy(self, v):
        return [cp(x, t) for x, (_, t) in zip(v, self.fields)]

    def fmt(self, v):
        out = []
        for x, (n, t) in zip(v, self.fields):
            q = '"' if t == 'string' else ''
            out.append('%s: %s%s%s' % (n, q, fmt(x, t), q))
        return '%s{%s}' % (self.name, ', '.join(out))


class TClass:
    def __init__(self, name, base, fields):
        self.name, self.base = name, base
        self.own = fields
        self.fields = (base.fields if base else []) + fields
        self.methods = []

    def render(self):
        return self.name

    def all_methods(self):
        seen, out, c = set(), [], self
        while c:
            for m in c.methods:
                if m.name not in seen:
                    seen.add(m.name)
                    out.append(m)
            c = c.base
        return out

    def find(self, name):
        c = self
        while c:
            for m in c.methods:
                if m.name == name:
                    return m
            c = c.base

    def isa(self, other):
        c = self
        while c:
            if c is other:
                return True
            c = c.base
        return False


class Obj:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f


class TTuple:
    def __init__(self, ts):
        self.ts = ts

    def render(self):
        return '(' + ', '.join(rt(t) for t in self.ts) + ')'

    def copy(self, v):
        return [cp(x, t) for x, t in zip(v, self.ts)]

    def fmt(self, v):
        return '(' + ', '.join(fmt(x, t) for x, t in zip(v, self.ts)) + ')'


class TArray:
    def __init__(self, t, n):
        self.t, self.n = t, n

    def render(self):
        return '[%s, %d]' % (rt(self.t), self.n)


class TOpt:
    def __init__(self, t):
        self.t = t

    def render(self):
        return rt(self.t) + '?'

    def copy(self, v):
        return None if v is None else (cp(v[0], self.t),)

    def fmt(self, v):
        return 'null' if v is None else fmt(v[0], self.t)


class TUnion:
    def __init__(self, ts):
        self.ts = ts

    def render(self):
        return '|'.join(rt(t) for t in self.ts)

    def copy(self, v):
        return (v[0], cp(v[1], self.ts[v[0]]))


class TEnum:
    def __init__(self, name, members):
        self.name, self.members = name, members    # [(name, value)]

    def render(self):
        return self.name

    def fmt(self, v):
        return self.name + '.' + [n for n, x in self.members if x == v][0]


class TFn:
    """Type of a closure value: callable in Python with (machine, args)."""
    def __init__(self, params, ret):
        self.params, self.ret = params, ret

    def render(self):
        return 'func(%s) -> %s' % (', '.join('a%d: %s' % (i, rt(p)) for i, p in enumerate(self.params)), rt(self.ret))


def rt(t):
    return t if isinstance(t, str) else t.render()


def cp(v, t):
    """Value semantics: what storing a value copies."""
    return t.copy(v) if hasattr(t, 'copy') else v


# --------------------------------------------------------------------------
# machine
# --------------------------------------------------------------------------
class Machine:
    def __init__(self, fuel=60000):
        self.fuel, self.out, self.frame, self.glob, self.depth = fuel, [], {}, {}, 0
        self.this = None
        self.lines = 0

    def tick(self, n=1):
        self.fuel -= n
        if self.fuel < 0:
            raise Fuel()

    def emit(self, s):
        self.lines += 1
        if self.lines > 1500:
            raise Fuel()
        self.out.append(s)


class Var:
    _n = 0

    def __init__(self, name, t, const=False, glob=False):
        self.name, self.t, self.const, self.glob = name, t, const, glob
        self.loop = False       # variables steering a loop are not assigned

    def get(self, m):
        return (m.glob if self.glob else m.frame)[self]

    def set(self, m, v):
        (m.glob if self.glob else m.frame)[self] = v


class N:
    """Expression node.  p: the body may print or write; g: it reads globals or
    objects (which a sibling's call may change)."""
    __slots__ = ('op', 't', 'k', 'v', 'p', 'g', 'bare')

    def __init__(self, op, t, k=(), v=None, p=False, g=False):
        self.op, self.t, self.k, self.v = op, t, list(k), v
        self.p = p or any(x.p for x in self.k)
        self.g = g or any(x.g for x in self.k)
        self.bare = False

    def become(self, o):
        for s in N.__slots__:
            setattr(self, s, getattr(o, s))

    # ---- evaluation
    def ev(self, m):
        m.tick()
        return getattr(self, 'ev_' + self.op)(m)

    def num(self, v):
        t = self.t
        if isint(t):
            if t in ('u32', 'u64') and (v < 0 or v > hi(t)):
                return wrap(v, t)
            if not lo(t) <= v <= hi(t):
                raise Trap(self, 'range')
            return v
        if t == 'f32':
            try:
                v = f32(v)
            except OverflowError:
                raise Trap(self, 'range')
        if v != v or abs(v) > 1e30 or (v != 0 and abs(v) < 1e-30):
            raise Trap(self, 'range')
        return v

    def ev_lit(self, m):
        return self.v

    def ev_var(self, m):
        return self.v.get(m)

    def ev_widen(self, m):
        return self.k[0].ev(m)

    def ev_bin(self, m):
        a, b = self.k[0].ev(m), self.k[1].ev(m)
        o, t = self.v, self.t
        if o == '+':
            return self.num(a + b)
        if o == '-':
            return self.num(a - b)
        if o == '*':
            return self.num(a * b)
        if o in '/%':
            if b == 0:
                raise Trap(self, 'zero')
            if isfloat(t):
                return self.num(a / b)
            q = abs(a) // abs(b)
            q = -q if (a < 0) != (b < 0) else q
            return self.num(q if o == '/' else a - q * b)
        if o == '&':
            return self.num(a & b)
        if o == '|':
            return self.num(a | b)
        if o == '^':
            return self.num(a ^ b)
        if o in ('<<', '>>'):
            if not 0 <= b < bits(t):
                raise Trap(self, 'shift')
            if o == '>>':
                return a >> b
            if signed(t) and (a < 0 or a << b > hi(t)):
                raise Trap(self, 'shift')
            return self.num(a << b)
        raise AssertionError(o)

    def ev_cmp(self, m):
        a, b, o = self.k[0].ev(m), self.k[1].ev(m), self.v
        return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o]

    def ev_and(self, m):
        return self.k[0].ev(m) and self.k[1].ev(m)

    def ev_or(self, m):
        return self.k[0].ev(m) or self.k[1].ev(m)

    def ev_not(self, m):
        return not self.k[0].ev(m)

    def ev_neg(self, m):
        return self.num(-self.k[0].ev(m))

    def ev_inv(self, m):
        v = ~self.k[0].ev(m)
        if self.t in ('u8', 'u16'):
            raise Trap(self, 'range')
        return self.num(v)

    def ev_tern(self, m):
        return self.k[1].ev(m) if self.k[0].ev(m) else self.k[2].ev(m)

    def ev_group(self, m):
        return self.k[0].ev(m)

    def ev_cast(self, m):
        v, s, t = self.k[0].ev(m), self.k[0].t, self.t
        if isinstance(s, TEnum):
            s = 'i32'
        if isint(t):
            if isfloat(s):
                v = int(v)
                if not lo(t) <= v <= hi(t):
                    raise Trap(self, 'range')
                return v
            return wrap(int(v), t)
        if isint(s) and abs(v) > (1 << 50 if t == 'f64' else 1 << 24):
            raise Trap(self, 'range')
        return self.num(float(v))

    def ev_call(self, m):
        fn, args = self.v, [a.ev(m) for a in self.k]
        return fn.call(m, args, self)

    def ev_fld(self, m):                     # k0: struct/tuple value, v: index
        o = self.k[0].ev(m)
        return (o.f if isinstance(o, Obj) else o)[self.v[0]]

    def ev_this(self, m):
        return m.this

    def ev_elem(self, m):                    # array element
        a, i = self.k[0].ev(m), self.k[1].ev(m)
        if not 0 <= i < len(a):
            raise Trap(self.k[1], 'index')
        return a[i]

    def ev_mk(self, m):                      # struct, tuple or array value
        vals = [cp(x.ev(m), x.t) for x in self.k]
        if isinstance(self.t, TStruct):
            order = self.v                   # field index of each kid
            r = [None] * len(self.t.fields)
            for i, x in zip(order, vals):
                r[i] = x
            for i, x in enumerate(r):
                if x is None:
                    r[i] = self.t.defaults[i]
            return r
        return vals

    def ev_new(self, m):
        args = [cp(x.ev(m), x.t) for x in self.k]
        return self.t.make(m, args, self)

    def ev_meth(self, m):                    # k0 receiver, v: Fn
        recv = self.k[0].ev(m)
        args = [a.ev(m) for a in self.k[1:]]
        fn = self.v
        if isinstance(recv, Obj) and fn.virtual:
            fn = recv.cls.find(fn.name)
        return fn.call(m, args, self, recv)

    def ev_closure(self, m):
        fn, cap = self.v
        saved = {c: c.get(m) for c in cap}
        this = m.this

        def call(m2, args, node):
            fr, th, d = m2.frame, m2.this, m2.depth
            m2.frame, m2.this = dict(saved), this
            m2.depth += 1
            if m2.depth > 60:
                raise Fuel()
            try:
                return fn.run(m2, args)
            finally:
                m2.frame, m2.this, m2.depth = fr, th, d
        return call

    def ev_callv(self, m):                   # call of a closure value
        f = self.k[0].ev(m)
        return f(m, [a.ev(m) for a in self.k[1:]], self)

    def ev_none(self, m):
        return None

    def ev_some(self, m):
        return (cp(self.k[0].ev(m), self.t.t),)

    def ev_isset(self, m):
        return self.k[0].ev(m) is not None

    def ev_deref(self, m):
        v = self.k[0].ev(m)
        if v is None:
            raise Trap(self, 'null')
        return v[0]

    def ev_uni(self, m):
        return (self.v, cp(self.k[0].ev(m), self.k[0].t))

    def ev_enum(self, m):
        return self.v[1]

    def ev_custom(self, m):
        return self.v[1](m, self)

    # ---- rendering: (text, precedence), C levels
    def r(self, need=100, ctx='arg'):
        s, p = self.render(ctx if need >= 100 else 'op')
        return '(' + s + ')' if p > need else s

    def render(self, ctx='arg'):
        o = self.op
        if o == 'lit':
            return self.lit(ctx)
        if o == 'var':
            return self.v.name, 0
        if o == 'widen':
            return self.k[0].render(ctx)
        if o in ('bin', 'cmp', 'and', 'or'):
            op = {'and': '&&', 'or': '||'}.get(o, self.v)
            p = PREC[op]
            return self.k[0].r(p) + ' ' + op + ' ' + self.k[1].r(p - 1), p
        if o == 'not':
            return '!' + self.k[0].r(1), 1
        if o in ('neg', 'inv'):
            x = self.k[0].r(1)
            if x[0] in '-+0123456789':
                x = '(' + x + ')'
            return ('-' if o == 'neg' else '~') + x, 1
        if o == 'tern':
            return '(%s) ? %s : %s' % (self.k[0].r(), self.k[1].r(1), self.k[2].r(1)), 14
        if o == 'group':
            return '(' + self.k[0].r() + ')', 0
        if o == 'cast':
            return self.k[0].r(0) + ' as ' + self.t, 20
        if o == 'call':
            return self.v.name + '(' + ', '.join(a.r() for a in self.k) + ')', 0
        if o == 'fld':
            return self.k[0].r(0) + '.' + str(self.v[1]), 0
        if o == 'this':
            return 'this', 0
        if o == 'elem':
            return self.k[0].r(0) + '.[' + self.k[1].r() + ']', 0
        if o == 'mk':
            if isinstance(self.t, TStruct):
                return self.t.name + '{' + ', '.join(
                    '%s: %s' % (self.t.fields[i][0], x.r()) for i, x in zip(self.v, self.k)) + '}', 0
            b = '()' if isinstance(self.t, TTuple) else '[]'
            return b[0] + ', '.join(x.r() for x in self.k) + b[1], 0
        if o == 'new':
            return self.t.name + '(' + ', '.join(x.r() for x in self.k) + ')', 0
        if o == 'meth':
            if self.v.opname:
                return self.k[0].r(0) + ' ' + self.v.opname + ' ' + self.k[1].r(0), 13
            recv = '' if self.k[0].op == 'this' and self.bare else self.k[0].r(0) + '.'
            return recv + self.v.name + '(' + ', '.join(a.r() for a in self.k[1:]) + ')', 0
        if o == 'closure':
            return self.v[0].closure_text(), 30
        if o == 'callv':
            return self.k[0].r(0) + '(' + ', '.join(a.r() for a in self.k[1:]) + ')', 0
        if o == 'none':
            return 'null', 0
        if o in ('some', 'uni'):
            return self.k[0].render(ctx)
        if o == 'isset':
            return '!(!' + self.k[0].r(0) + ')', 1
        if o == 'deref':
            return '*' + self.k[0].r(0), 1
        if o == 'enum':
            return self.t.name + '.' + self.v[0], 0
        if o == 'custom':
            return self.v[0](self), self.v[2] if len(self.v) > 2 else 0
        raise AssertionError(o)

    def lit(self, ctx):
        v, t = self.v, self.t
        if t == 'bool':
            return ('true' if v else 'false'), 0
        if t == 'string':
            return '"' + v.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"', 0
        if isfloat(t):
            s = repr(v)
            if 'e' in s or 'inf' in s:
                s = '%f' % v
            if t == 'f32':
                s += '`f32'
                return ('(' + s + ')' if ctx == 'op' else s), 0
            return s, (1 if v < 0 else 0)
        if self.bare:
            return str(v), (1 if v < 0 else 0)
        s = '%d`%s' % (v, t)
        if t == 'i64' and v == lo(t):
            return '(-9223372036854775807`i64 - 1`i64)', 0
        return ('(' + s + ')' if ctx == 'op' else s), 0


PREC = {'*': 2, '/': 2, '%': 2, '+': 3, '-': 3, '<<': 4, '>>': 4, '<': 5, '<=': 5, '>': 5, '>=': 5,
        '==': 6, '!=': 6, '&': 7, '^': 8, '|': 9, '&&': 10, '||': 11}
ARITH = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
WORDS = ['', 'a', 'xyz', 'Hello', 'two words', 'tab\\t', 'q"q', '%d %s', '{i32}', '$', 'line', "it's", 'z' * 40]


def literal(r, t):
    if t == 'bool':
        return N('lit', t, v=r.random() < .5)
    if t == 'string':
        return N('lit', t, v=r.choice(['', 'a', 'xyz', 'Hello', 'two words', 'q"q', '%d %s', '{i32}', '#', "it's", 'z' * 40, 'back\\slash']))
    if isfloat(t):
        return N('lit', t, v=r.choice([0.0, 1.0, 0.5, 2.25, 10.125, 3.0, 100.5, 0.0625, 1024.0]))
    c = [0, 1, 2, 3, 5, 7, 10, 100, hi(t), hi(t) - 1, hi(t) // 2 + 1]
    if signed(t):
        c += [-1, -2, -7, lo(t), lo(t) + 1]
    v = r.choice(c) if r.random() < .5 else r.randrange(0, 20)
    return N('lit', t, v=v)


def is_small(v):
    return -128 <= v <= 127


# --------------------------------------------------------------------------
# statements
# --------------------------------------------------------------------------
class S:
    def lines(self, ind):
        raise NotImplementedError

    def ex(self, m):
        raise NotImplementedError

    def kids(self):
        return ()


def pad(ind):
    return '    ' * ind


class SBlock(S):
    def __init__(self, stmts):
        self.s = stmts

    def lines(self, ind):
        out = []
        for s in self.s:
            out += s.lines(ind)
        return out

    def braced(self, ind):
        return ['{'] + self.lines(ind + 1) + [pad(ind) + '}']

    def ex(self, m):
        defers = []
        old, m.defers = getattr(m, 'defers', None), defers
        try:
            for s in self.s:
                m.tick()
                s.ex(m)
                m.defers = defers
        finally:
            for d in reversed(defers):
                d(m)
            m.defers = old

    def kids(self):
        return self.s


class SDecl(S):
    def __init__(self, var, e, typed, late=False):
        self.var, self.e, self.typed, self.late = var, e, typed, late

    def lines(self, ind):
        kw = 'const' if self.var.const else 'var'
        t = ': ' + rt(self.var.t) if self.typed else ''
        if self.late:
            return [pad(ind) + '%s %s: %s;' % (kw, self.var.name, rt(self.var.t)),
                    pad(ind) + '%s = %s;' % (self.var.name, self.e.r(13))]
        return [pad(ind) + '%s %s%s = %s;' % (kw, self.var.name, t, self.e.r())]

    def ex(self, m):
        self.var.set(m, cp(self.e.ev(m), self.var.t))


class SPrint(S):
    def __init__(self, tag, es):
        self.tag, self.es = tag, es

    def lines(self, ind):
        return [pad(ind) + 'println("%s"%s);' % (self.tag, ''.join(', " ", ' + e.r() for e in self.es))]

    def ex(self, m):
        m.emit(self.tag + ''.join([' ' + fmt(v, e.t) for v, e in [(e.ev(m), e) for e in self.es]]))


def store(m, lv, v):
    """Assign through a var / fld / elem node."""
    if lv.op == 'var':
        lv.v.set(m, v)
    elif lv.op == 'fld':
        o = lv.k[0].ev(m)
        (o.f if isinstance(o, Obj) else o)[lv.v[0]] = v
    elif lv.op == 'elem':
        a, i = lv.k[0].ev(m), lv.k[1].ev(m)
        if not 0 <= i < len(a):
            raise Trap(lv.k[1], 'index')
        a[i] = v
    else:
        raise AssertionError(lv.op)


class SAssign(S):
    def __init__(self, lv, op, e):
        self.lv, self.op, self.e = lv, op, e
        self.bin = N('bin', lv.t, [lv, e], v=op) if op else None

    def lines(self, ind):
        if self.bin is not None and self.bin.op != 'bin':       # repaired
            return [pad(ind) + '%s = %s;' % (self.lv.r(0), self.bin.r(13))]
        return [pad(ind) + '%s %s= %s;' % (self.lv.r(0), self.op or '', self.e.r(13))]

    def ex(self, m):
        v = (self.bin or self.e).ev(m)
        store(m, self.lv, cp(v, self.lv.t))


class SInc(S):
    def __init__(self, lv, op, pre):
        self.lv, self.op, self.pre = lv, op, pre
        self.bin = N('bin', lv.t, [lv, N('lit', lv.t, v=1)], v=op)

    def lines(self, ind):
        if self.bin.op != 'bin':
            return [pad(ind) + '%s = %s;' % (self.lv.r(0), self.bin.r(13))]
        o = self.op * 2
        return [pad(ind) + (o + self.lv.r(0) if self.pre else self.lv.r(0) + o) + ';']

    def ex(self, m):
        store(m, self.lv, self.bin.ev(m))


class SIf(S):
    def __init__(self, conds, blocks, els):
        self.c, self.b, self.els = conds, blocks, els

    def lines(self, ind):
        out = []
        for i, (c, b) in enumerate(zip(self.c, self.b)):
            head = ('else if (' if i else 'if (') + c.r() + ') '
            x = b.braced(ind)
            if i:
                out[-1] += ' ' + head + x[0]
            else:
                out.append(pad(ind) + head + x[0])
            out += x[1:]
        if self.els:
            x = self.els.braced(ind)
            out[-1] += ' else ' + x[0]
            out += x[1:]
        return out

    def ex(self, m):
        for c, b in zip(self.c, self.b):
            if c.ev(m):
                return b.ex(m)
        if self.els:
            self.els.ex(m)

    def kids(self):
        return self.b + ([self.els] if self.els else [])


class SWhile(S):
    """while with a counter that bounds it; the counter steps first."""
    def __init__(self, var, n, cond, body):
        self.var, self.n, self.cond, self.body = var, n, cond, body

    def lines(self, ind):
        v = self.var.name
        c = ' && ' + self.cond.r(10) if self.cond else ''
        out = [pad(ind) + 'var %s: i32 = 0;' % v, pad(ind) + 'while (%s < %d%s) {' % (v, self.n, c),
               pad(ind + 1) + '%s++;' % v]
        return out + self.body.lines(ind + 1) + [pad(ind) + '}']

    def ex(self, m):
        self.var.set(m, 0)
        while self.var.get(m) < self.n and (self.cond is None or self.cond.ev(m)):
            m.tick()
            self.var.set(m, self.var.get(m) + 1)
            try:
                self.body.ex(m)
            except Brk:
                break
            except Cont:
                continue

    def kids(self):
        return [self.body]


class SFor(S):
    """for over a literal range; kind: dots, range, down, or foreach."""
    def __init__(self, var, kind, a, b, step, body, idx=None, arr=None):
        self.var, self.kind, self.a, self.b, self.step, self.body = var, kind, a, b, step, body
        self.idx, self.arr = idx, arr

    def lines(self, ind):
        t, v = self.var.t, self.var.name
        if self.kind == 'each':
            head = 'const %s%s: %s' % (v, ', ' + self.idx.name if self.idx else '', self.arr.r())
        elif self.kind == 'dots':
            head = 'const %s: %s..%s' % (v, self.a.r(0, 'op'), self.b.r(0, 'op'))
        elif self.kind == 'range':
            head = 'const %s: range(%s, %s, %s)' % (v, self.a.r(), self.b.r(), self.step.r())
        else:
            head = 'const %s: range(%s, %s, %s, true)' % (v, self.a.r(), self.b.r(), self.step.r())
        return [pad(ind) + 'for (%s) {' % head] + self.body.lines(ind + 1) + [pad(ind) + '}']

    def ex(self, m):
        if self.kind == 'each':
            seq = list(enumerate(list(self.arr.ev(m))))
        else:
            a, b = self.a.ev(m), self.b.ev(m)
            s = self.step.ev(m) if self.step else 1
            if (b - a) // (s or 1) > 400 or s == 0:
                raise Trap(self.b, 'loop')
            if not lo(self.var.t) <= b + s <= hi(self.var.t):
                raise Trap(self.b, 'loop')
            seq = list(enumerate(range(a, b, s)))
        for i, x in seq:
            m.tick()
            self.var.set(m, cp(x, self.var.t))
            if self.idx:
                self.idx.set(m, i)
            try:
                self.body.ex(m)
            except Brk:
                break
            except Cont:
                continue

    def kids(self):
        return [self.body]


class SSwitch(S):
    def __init__(self, e, cases, dflt):
        self.e, self.cases, self.dflt = e, cases, dflt      # cases: [([(lo, hi)], block)]

    def lines(self, ind):
        t = self.e.t
        out = [pad(ind) + 'switch (%s) {' % self.e.r()]

        def one(a, b):
            if isinstance(t, TEnum):
                return t.name + '.' + [n for n, x in t.members if x == a][0]
            return '%d`%s' % (a, t) if a == b else '%d`%s..%d`%s' % (a, t, b, t)
        for pats, b in self.cases:
            x = b.braced(ind + 1)
            out += [pad(ind + 1) + 'case ' + ', '.join(one(*p) for p in pats) + ' => ' + x[0]] + x[1:]
        x = self.dflt.braced(ind + 1)
        return out + [pad(ind + 1) + 'default => ' + x[0]] + x[1:] + [pad(ind) + '}']

    def ex(self, m):
        v = self.e.ev(m)
        for pats, b in self.cases:
            if any(a <= v <= z for a, z in pats):
                return b.ex(m)
        self.dflt.ex(m)

    def kids(self):
        return [b for _, b in self.cases] + [self.dflt]


class SNest(S):
    def __init__(self, b):
        self.b = b

    def lines(self, ind):
        x = self.b.braced(ind)
        return [pad(ind) + x[0]] + x[1:]

    def ex(self, m):
        self.b.ex(m)

    def kids(self):
        return [self.b]


class SExpr(S):
    def __init__(self, e):
        self.e = e

    def lines(self, ind):
        return [pad(ind) + self.e.r() + ';']

    def ex(self, m):
        self.e.ev(m)


class SJump(S):
    def __init__(self, kind, cond):
        self.kind, self.cond = kind, cond

    def lines(self, ind):
        return [pad(ind) + 'if (%s) %s;' % (self.cond.r(), self.kind)]

    def ex(self, m):
        if self.cond.ev(m):
            raise (Brk if self.kind == 'break' else Cont)()


class SRet(S):
    def __init__(self, e, cond=None):
        self.e, self.cond = e, cond

    def lines(self, ind):
        x = 'return %s;' % self.e.r() if self.e else 'return;'
        return [pad(ind) + ('if (%s) ' % self.cond.r() if self.cond else '') + x]

    def ex(self, m):
        if self.cond is None or self.cond.ev(m):
            raise Ret(cp(self.e.ev(m), self.e.t) if self.e else None)


class SCustom(S):
    """Statement given by two functions."""
    def __init__(self, lines, ex, kids=()):
        self._l, self._e, self._k = lines, ex, list(kids)

    def lines(self, ind):
        return self._l(ind)

    def ex(self, m):
        return self._e(m)

    def kids(self):
        return self._k


class SMatch(S):
    """match over a union; cases: [(type index, Var|None, byref, block)]"""
    def __init__(self, e, cases, els):
        self.e, self.cases, self.els = e, cases, els

    def lines(self, ind):
        t = self.e.t
        out = [pad(ind) + 'match (%s) {' % self.e.r()]
        for i, v, ref, b in self.cases:
            x = b.braced(ind + 1)
            a = ' as %s%s' % ('&' if ref else '', v.name) if v else ''
            out += [pad(ind + 1) + 'case %s%s => ' % (rt(t.ts[i]), a) + x[0]] + x[1:]
        if self.els:
            x = self.els.braced(ind + 1)
            out += [pad(ind + 1) + 'else => ' + x[0]] + x[1:]
        return out + [pad(ind) + '}']

    def ex(self, m):
        k, v = self.e.ev(m)
        for i, var, ref, b in self.cases:
            if i == k:
                if var:
                    var.set(m, v if ref or hasattr(var.t, 'make') else v)
                return b.ex(m)
        if self.els:
            self.els.ex(m)

    def kids(self):
        return [c[3] for c in self.cases] + ([self.els] if self.els else [])


# --------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------
class Fn:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret    # params: [(Var, default N|None)]
        self.body = None
        self.expr = None         # => form
        self.p = self.g = False
        self.virtual = False
        self.opname = None
        self.owner = None
        self.isconst = False
        self.generic = None      # text of type parameters
        self.ptypes = None       # rendered parameter types when generic
        self.rettext = None
        self.raises = False

    def run(self, m, args):
        for (v, d), a in zip(self.params, args):
            v.set(m, cp(a, v.t))
        for v, d in self.params[len(args):]:
            v.set(m, d.ev(m))
        if self.expr is not None:
            return cp(self.expr.ev(m), self.ret)
        try:
            self.body.ex(m)
        except Ret as r:
            return r.v
        return None

    def call(self, m, args, node, this=None):
        m.tick(3)
        fr, th, d, df = m.frame, m.this, m.depth, getattr(m, 'defers', None)
        m.frame, m.this = {}, this
        m.depth += 1
        if m.depth > 60:
            raise Fuel()
        try:
            return self.run(m, args)
        finally:
            m.frame, m.this, m.depth, m.defers = fr, th, d, df

    def sig(self):
        ps = []
        for i, (v, d) in enumerate(self.params):
            t = self.ptypes[i] if self.ptypes else rt(v.t)
            ps.append('%s: %s%s' % (v.name, t, ' = ' + d.r() if d else ''))
        ret = self.rettext if self.rettext is not None else (': ' + ('!' if self.raises else '') + rt(self.ret))
        return '(' + ', '.join(ps) + ')' + ret

    def text(self, ind=0):
        pre = ('const ' if self.isconst else '') + ('virtual ' if self.virtual == 'new' else '')
        n = '`%s`' % self.opname if self.opname else self.name
        head = pad(ind) + pre + 'func ' + n + (self.generic or '') + self.sig()
        if self.expr is not None:
            return [head + ' => ' + self.expr.r()]
        x = self.body.braced(ind)
        return [head + ' ' + x[0]] + x[1:]

    def closure_text(self):
        ps = ', '.join('%s: %s' % (v.name, rt(v.t)) for v, _ in self.params)
        if self.expr is not None:
            return '(%s): %s => %s' % (ps, rt(self.ret), self.expr.r())
        return '(%s): %s => {\n%s\n}' % (ps, rt(self.ret), '\n'.join(self.body.lines(1)))


# --------------------------------------------------------------------------
# generator
# --------------------------------------------------------------------------
class Scope:
    def __init__(self, up=None):
        self.up, self.vars = up, []

    def all(self):
        seen, out, s = set(), [], self
        while s:
            for v in reversed(s.vars):
                if v.name not in seen:
                    seen.add(v.name)
                    out.append(v)
            s = s.up
        return out


class Gen:
    def __init__(self, r, features=()):
        self.r = r
        self.f = set(features)
        self.fns, self.globals, self.types = [], [], []
        self.n = 0
        self.scope = Scope()
        self.loop = 0
        self.tag = 0
        self.cur = None          # Fn being built: its effects are collected
        self.this = None         # class/struct whose method is built
        self.used = set()
        self.stmt_makers = []
        self.depth = 0

    # ---- names
    def name(self, p='v'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def types_for(self):
        r = self.r
        return r.choice(['i32', 'i32', 'i64', 'i64', 'u8', 'i8', 'i16', 'u16', 'u32', 'u64', 'f64', 'f32', 'bool', 'string'])

    # ---- expressions
    def vars(self, t, g=True, write=False):
        out = []
        for v in self.scope.all() + self.globals:
            if v.t == t or v.t is t:
                if v.glob and not g:
                    continue
                if write and (v.const or v.loop):
                    continue
                out.append(v)
        return out

    def leaf(self, t, g=True):
        r = self.r
        if g and r.random() < .35:
            x = self.read_path(t)
            if x is not None:
                return x
        vs = self.vars(t, g)
        if vs and r.random() < .8:
            v = r.choice(vs)
            return N('var', t, v=v, g=v.glob)
        return self.make_value(t)

    def make_value(self, t, d=0):
        """A value of any type made from literals or small expressions."""
        r = self.r
        if t in SCALARS:
            return literal(r, t)
        if isinstance(t, TStruct):
            idx = [i for i in range(len(t.fields)) if not (i in t.defaults and r.random() < .4)]
            return N('mk', t, [self.sub(t.fields[i][1], d - 1) for i in idx], v=idx)
        if isinstance(t, TTuple):
            return N('mk', t, [self.sub(x, d - 1) for x in t.ts])
        if isinstance(t, TArray):
            return N('mk', t, [self.sub(t.t, d - 1) for _ in range(t.n)])
        if isinstance(t, TEnum):
            return N('enum', t, v=r.choice(t.members))
        if isinstance(t, TClass):
            return N('new', t, [self.sub(x, d - 1) for x in t.ctor_types()], g=True)
        raise AssertionError(t)

    def sub(self, t, d):
        return self.expr(t, d, p=False, g=False) if d > 0 else (self.leaf(t, False))

    def paths(self):
        """[(node, type, writable)] of readable places one or two levels deep."""
        out = []

        def grow(n, t, w, depth):
            out.append((n, t, w))
            if depth == 0:
                return
            if isinstance(t, (TStruct, TClass)):
                for i, (fn, ft) in enumerate(t.fields):
                    grow(N('fld', ft, [n], v=(i, fn), g=True), ft, w or isinstance(t, TClass), depth - 1)
            elif isinstance(t, TTuple):
                for i, ft in enumerate(t.ts):
                    grow(N('fld', ft, [n], v=(i, i), g=True), ft, False, depth - 1)
            elif isinstance(t, TArray):
                i = self.r.randrange(t.n)
                grow(N('elem', t.t, [n, N('lit', 'i32', v=i)], g=True), t.t, w, depth - 1)
        for v in self.scope.all() + self.globals:
            if v.t not in SCALARS if isinstance(v.t, str) else True:
                grow(N('var', v.t, v=v, g=True), v.t, not v.const and not v.loop, 2)
        if self.this is not None:
            grow(N('this', self.this, g=True), self.this, not (self.cur and self.cur.isconst), 2)
        return out

    def read_path(self, t):
        ps = [n for n, pt, w in self.paths() if (pt is t or pt == t) and n.op != 'var' and n.op != 'this']
        return self.r.choice(ps) if ps else None

    def expr(self, t, d, p=True, g=True):
        """An expression of type t; p: may have effects, g: may read globals."""
        r = self.r
        if d <= 0 or r.random() < .12:
            return self.leaf(t, g)
        if p and r.random() < .18 or r.random() < .08:
            c = self.call(t, d, p, g)
            if c:
                return c
        for mk in r.sample(self.expr_makers, len(self.expr_makers)) if r.random() < .3 else ():
            x = mk(t, d, p, g)
            if x is not None:
                return x
        k = r.random()
        if t not in SCALARS:
            return self.agg_expr(t, d, p, g)
        if k < .08:
            a, b = self.expr(t, d - 1, p, g), self.expr(t, d - 1, p, g)
            return N('tern', t, [self.expr('bool', d - 1, p, g), a, b])
        if k < .13 and t != 'string':
            return N('group', t, [self.expr(t, d - 1, p, g)])
        if t == 'string':
            return self.leaf(t, g)
        if t == 'bool':
            if k < .35:
                return N(r.choice(['and', 'or']), t, [self.expr(t, d - 1, p, g), self.expr(t, d - 1, p, g)])
            if k < .45:
                return N('not', t, [self.expr(t, d - 1, p, g)])
            if k < .85:
                s = r.choice(INTS + ['i32', 'i64', 'f64'])
                a, b = self.pair(s, d, p, g)
                return N('cmp', t, [a, b], v=r.choice(['<', '<=', '>', '>=', '==', '!='] if not isfloat(s) else ['<', '>', '<=', '>=']))
            return self.leaf(t, g)
        if k < .25:
            s = r.choice(INTS + ['f64', 'f32'] + (['bool'] if isint(t) else []))
            return N('cast', t, [self.expr(s, d - 1, p, g)])
        if k < .30 and (isfloat(t) or signed(t)):
            return N('neg', t, [self.expr(t, d - 1, p, g)])
        if k < .35 and isint(t) and t not in ('u8', 'u16'):
            return N('inv', t, [self.expr(t, d - 1, p, g)])
        if isfloat(t):
            a, b = self.pair(t, d, p, g)
            return N('bin', t, [a, b], v=r.choice(['+', '-', '*', '/']))
        op = r.choice(ARITH)
        if op in ('<<', '>>'):
            a = self.expr(t, d - 1, p, g)
            return N('bin', t, [a, N('lit', t, v=r.randrange(bits(t)))], v=op)
        a, b = self.pair(t, d, p, g)
        return N('bin', t, [a, b], v=op)

    expr_makers = ()

    def agg_expr(self, t, d, p, g):
        r = self.r
        vs = self.vars(t, g)
        if vs and r.random() < .5:
            v = r.choice(vs)
            return N('var', t, v=v, g=True)
        return self.make_value(t, d)

    def pair(self, t, d, p, g):
        """Two operands evaluated in no fixed order: at most one has effects,
        and then the other reads nothing that can change."""
        r = self.r
        i = r.randrange(2)
        x = self.expr(t, d - 1, p, g)
        y = self.expr(t, d - 1, False, g and not x.p)
        if isint(t) and bits(t) > 8 and r.random() < .15 and not self.widened(x):
            y2 = self.narrow(t, d - 1, g and not x.p)
            if y2 is not None:
                y = y2
        return (x, y) if i else (y, x)

    def widened(self, x):
        return x.op == 'widen' or x.bare or any(self.widened(k) for k in x.k if x.op in ('bin', 'tern', 'neg', 'inv', 'group'))

    def narrow(self, t, d, g):
        r = self.r
        if r.random() < .5:
            v = r.randrange(0, 100)
            n = N('lit', t, v=v)
            n.bare = True
            return n
        s = r.choice([x for x in INTS if signed(x) == signed(t) and bits(x) < bits(t)])
        return N('widen', t, [self.expr(s, d - 1, False, g)])

    def init_expr(self, t, d, p=True):
        """Initialiser of something whose type is written down."""
        if isint(t) and bits(t) > 8 and self.r.random() < .25:
            return self.narrow(t, d, True)
        return self.expr(t, d, p)

    def args(self, types, d, p, g):
        out, imp = [], False
        r = self.r
        hot = r.randrange(len(types)) if types and p else -1
        xs = {}
        if hot >= 0:
            xs[hot] = self.expr(types[hot], d - 1, p, g)
            imp = xs[hot].p
        for i, t in enumerate(types):
            if i not in xs:
                xs[i] = self.expr(t, d - 1, False, g and not imp)
        return [xs[i] for i in range(len(types))]

    def call(self, t, d, p, g):
        r = self.r
        c = [f for f in self.fns if (f.ret is t or f.ret == t) and (p or not f.p) and (g or not f.g) and not f.raises]
        if not c:
            return None
        f = r.choice(c)
        return self.call_fn(f, d, p, g)

    def call_fn(self, f, d, p, g):
        n = len(f.params)
        nd = 0
        while nd < n and f.params[n - 1 - nd][1] is not None:
            nd += 1
        take = n - (self.r.randrange(nd + 1) if nd else 0)
        a = self.args([v.t for v, _ in f.params[:take]], min(d, 2), p and not f.p, g and not f.p)
        if self.cur:
            self.cur.p |= f.p
            self.cur.g |= f.g
        return N('call', f.ret, a, v=f, p=f.p, g=f.g)

    # ---- statements
    def block(self, n, d):
        self.scope = Scope(self.scope)
        self.depth += 1
        out = [self.stmt(d) for _ in range(n)]
        self.depth -= 1
        self.scope = self.scope.up
        return SBlock([s for s in out if s])

    def new_var(self, t, const=False):
        r = self.r
        if r.random() < .1 and self.scope.up and self.scope.up.vars:
            # shadow an outer variable
            nm = r.choice(self.scope.up.vars).name
            if all(v.name != nm for v in self.scope.vars):
                return Var(nm, t, const)
        return Var(self.name(), t, const)

    def decl(self, t=None):
        r = self.r
        t = t or self.decl_type()
        v = Var(self.name(), t, r.random() < .2)
        if t in SCALARS:
            k = r.random()
            if k < .5:
                s = SDecl(v, self.expr(t, 3), False)
            elif k < .85 or v.const:
                s = SDecl(v, self.init_expr(t, 3), True)
            else:
                s = SDecl(v, self.expr(t, 2), True, late=True)
        else:
            s = SDecl(v, self.agg_expr(t, 2, True, True), r.random() < .4 and not isinstance(t, (TArray,)) or isinstance(t, (TOpt, TUnion)))
        self.scope.vars.append(v)
        self.effects(s.e)
        return s

    def decl_type(self):
        if self.types and self.r.random() < .4:
            return self.r.choice(self.types)
        return self.types_for()

    def effects(self, *es):
        if self.cur:
            for e in es:
                if e is not None:
                    self.cur.p |= e.p
                    self.cur.g |= e.g

    def note(self, p=False, g=False):
        if self.cur:
            self.cur.p |= p
            self.cur.g |= g

    def target(self, pred):
        """A writable place whose type satisfies pred."""
        r = self.r
        c = []
        for v in self.scope.all() + self.globals:
            if pred(v.t) and not v.const and not v.loop and not isinstance(v.t, (TArray, TFn)):
                c.append(N('var', v.t, v=v, g=v.glob))
        if r.random() < .5 or not c:
            c2 = [n for n, t, w in self.paths() if w and pred(t) and n.op not in ('var', 'this') and not isinstance(t, TArray)]
            c = c2 or c
        return r.choice(c) if c else None

    def stmt(self, d):
        r = self.r
        for mk in r.sample(self.stmt_makers, len(self.stmt_makers)) if self.stmt_makers and r.random() < .35 else ():
            s = mk(d)
            if s is not None:
                return s
        k = r.random()
        if k < .24:
            return self.decl()
        if k < .40:
            lv = self.target(lambda t: True)
            if lv is None:
                return self.decl()
            self.note(p=lv.g, g=lv.g)
            if (isint(lv.t) or isfloat(lv.t)) and r.random() < .5:
                if isint(lv.t) and r.random() < .4:
                    return SInc(lv, r.choice('+-'), r.random() < .4)
                op = r.choice(['+', '-', '*', '/'] if isfloat(lv.t) else ARITH)
                e = N('lit', lv.t, v=r.randrange(bits(lv.t))) if op in ('<<', '>>') else self.expr(lv.t, 2, False, not lv.g)
                self.effects(e)
                return SAssign(lv, op, e)
            # C does not order the two sides of an assignment
            e = self.expr(lv.t, 3, not lv.g) if not isinstance(lv.t, (TOpt, TUnion)) else self.agg_expr(lv.t, 2, not lv.g, True)
            self.effects(e)
            return SAssign(lv, None, e)
        if k < .58 or d <= 0:
            return self.printer()
        if k < .70:
            n = r.choice([1, 1, 2, 3])
            cs = [self.expr('bool', 3) for _ in range(n)]
            self.effects(*cs)
            return SIf(cs, [self.block(r.randrange(1, 4), d - 1) for _ in range(n)],
                       self.block(r.randrange(1, 3), d - 1) if r.random() < .6 else None)
        if k < .84:
            return self.loop_stmt(d)
        if k < .91:
            return self.switch(d)
        if k < .94:
            return SNest(self.block(r.randrange(1, 4), d - 1))
        c = self.call_stmt()
        return c or self.printer()

    def call_stmt(self):
        fs = [f for f in self.fns if not f.raises]
        if not fs:
            return None
        e = self.call_fn(self.r.choice(fs), 2, True, True)
        self.effects(e)
        return SExpr(e)

    def printer(self, t=None):
        r = self.r
        self.tag += 1
        n = r.choice([1, 1, 2, 3])
        e0 = self.expr(t or self.print_type(), 3)
        es = [e0] + [self.expr(self.print_type(), 2, False, not e0.p) for _ in range(n - 1)]
        self.note(p=True)
        self.effects(*es)
        return SPrint('#%d' % self.tag, es)

    def print_type(self):
        if self.r.random() < .25:
            c = [t for t in self.types if hasattr(t, 'fmt')]
            if c:
                return self.r.choice(c)
        return self.types_for()

    def loop_stmt(self, d):
        r = self.r
        self.loop += 1
        # bound the product of nested loops
        n = r.choice([2, 3, 5, 9]) if self.loop == 1 else r.choice([1, 2, 3])
        try:
            k = r.random()
            outer = self.scope
            if k < .35:
                v = Var(self.name('w'), 'i32')
                v.loop = True
                cond = self.expr('bool', 2) if r.random() < .4 else None
                self.effects(cond)
                outer.vars.append(v)
                return SWhile(v, n, cond, self.loop_body(d))
            arrs = [x for x in self.scope.all() if isinstance(x.t, TArray)]
            if k < .5 and arrs:
                a = r.choice(arrs)
                v = Var(self.name('e'), a.t.t, True)
                idx = Var(self.name('x'), 'i64', True) if False else None
                self.scope = Scope(self.scope)
                self.scope.vars += [v]
                b = self.loop_body(d)
                self.scope = outer
                return SFor(v, 'each', None, None, None, b, idx, N('var', a.t, v=a))
            t = r.choice(['i32', 'i32', 'i64', 'u8', 'u64', 'i8', 'u16'])
            v = Var(self.name('k'), t, True)
            kind = r.choice(['dots', 'dots', 'range', 'down'])
            a = r.randrange(0, 30)
            st = None
            if kind == 'dots':
                v.t = 'i64'
                b = a + r.choice([0, n, n])
            elif kind == 'range':
                st = N('lit', t, v=r.randrange(1, 4))
                b = a + n * st.v - r.randrange(0, st.v)
            else:
                t = v.t = r.choice(['i32', 'i64', 'i16'])
                st = N('lit', t, v=-r.randrange(1, 4))
                b = a + n * st.v + r.randrange(0, -st.v)
            self.scope = Scope(self.scope)
            self.scope.vars.append(v)
            body = self.loop_body(d)
            self.scope = outer
            return SFor(v, kind, N('lit', t, v=a), N('lit', t, v=b), st, body)
        finally:
            self.loop -= 1

    def loop_body(self, d):
        r = self.r
        b = self.block(r.randrange(1, 4), d - 1)
        if r.random() < .35:
            c = self.expr('bool', 2)
            self.effects(c)
            b.s.insert(r.randrange(len(b.s) + 1), SJump(r.choice(['break', 'continue']), c))
        return b

    def switch(self, d):
        r = self.r
        ens = [t for t in self.types if isinstance(t, TEnum)]
        if ens and r.random() < .4:
            t = r.choice(ens)
            e = self.agg_expr(t, 1, True, True)
            vals = [x for _, x in t.members]
            r.shuffle(vals)
            cases = []
            while vals and len(cases) < 3:
                k = min(len(vals), r.choice([1, 1, 2]))
                cases.append(([(v, v) for v in vals[:k]], None))
                vals = vals[k:]
        else:
            t = r.choice(['i32', 'i64', 'u8', 'i8', 'u32', 'i16'])
            e = self.expr(t, 2)
            if r.random() < .6 and t not in ('u8',):
                e = N('bin', t, [e, N('lit', t, v=r.choice([3, 5, 8]))], v='%')
            pts = sorted(r.sample(range(0, 12), r.randrange(2, 7)))
            cases, i = [], 0
            while i < len(pts):
                k = r.random()
                if k < .25 and i + 1 < len(pts):
                    cases.append(([(pts[i], pts[i + 1])], None))
                    i += 2
                elif k < .5 and i + 1 < len(pts):
                    cases.append(([(pts[i], pts[i]), (pts[i + 1], pts[i + 1])], None))
                    i += 2
                else:
                    cases.append(([(pts[i], pts[i])], None))
                    i += 1
            r.shuffle(cases)
        self.effects(e)
        saved, self.loop_ok = getattr(self, 'loop_ok', True), False
        cases = [(p, self.block(r.randrange(1, 3), d - 1)) for p, _ in cases]
        s = SSwitch(e, cases, self.block(r.randrange(1, 3), d - 1))
        self.loop_ok = saved
        return s

    # ---- functions
    def function(self, name=None, ret=None, nparams=None):
        r = self.r
        f = Fn(name or self.name('fn'), [], ret or (r.choice(self.types) if self.types and r.random() < .2 and not isinstance(self.types[0], TFn) else self.types_for()))
        if isinstance(f.ret, (TArray, TOpt, TUnion, TFn, TClass)):
            f.ret = 'i32'
        self.fill(f, nparams)
        self.fns.append(f)
        return f

    def param_type(self):
        c = [t for t in self.types if isinstance(t, (TStruct, TClass, TTuple, TEnum))]
        return self.r.choice(c) if c and self.r.random() < .25 else self.types_for()

    def fill(self, f, nparams=None, stmts=None):
        r = self.r
        n = nparams if nparams is not None else r.randrange(0, 4)
        old = self.scope, self.cur, self.loop
        self.scope, self.cur, self.loop = Scope(), f, 0
        dflt = False
        for i in range(n):
            v = Var(self.name('p'), self.param_type())
            v.const = v.t not in SCALARS     # aggregates come by value or reference: left alone
            d = None
            if v.t in SCALARS and i >= n - 1 and r.random() < .3:
                d = literal(r, v.t)
            f.params.append((v, d))
            self.scope.vars.append(v)
        if r.random() < .3:
            f.expr = self.expr(f.ret, 3) if f.ret in SCALARS else self.agg_expr(f.ret, 2, True, True)
            if self.widened(f.expr):
                f.expr = N('lit', f.ret, v=f.expr.v) if f.expr.op == 'lit' else f.expr
            self.effects(f.expr)
        else:
            ss = []
            for _ in range(stmts or r.randrange(1, 5)):
                ss.append(self.stmt(2))
                if r.random() < .12:
                    c = self.expr('bool', 2)
                    e = self.ret_expr(f.ret)
                    self.effects(c, e)
                    ss.append(SRet(e, c))
            e = self.ret_expr(f.ret)
            self.effects(e)
            ss.append(SRet(e))
            f.body = SBlock(ss)
        self.scope, self.cur, self.loop = old
        return f

    def ret_expr(self, t):
        return self.expr(t, 3) if t in SCALARS else self.agg_expr(t, 2, True, True)

    def recursive(self):
        """A function that calls itself with a smaller first argument."""
        r = self.r
        t = r.choice(['i32', 'i64', 'u64'])
        f = Fn(self.name('r'), [], r.choice(['i64', 'i32', 'u64', 'f64']))
        n = Var(self.name('p'), t)
        x = Var(self.name('p'), f.ret)
        f.params = [(n, None), (x, None)]
        old = self.scope, self.cur
        self.scope, self.cur = Scope(), f
        self.scope.vars = [n, x]
        n.loop = True
        base = SRet(self.expr(f.ret, 1), N('cmp', 'bool', [N('var', t, v=n), N('lit', t, v=r.randrange(1, 3))], v='<'))
        ss = [base]
        if r.random() < .5:
            ss.append(self.printer())
        rec = N('call', f.ret, [N('bin', t, [N('var', t, v=n), N('lit', t, v=1)], v='-'), self.expr(f.ret, 1, False)], v=f, p=True, g=True)
        e = N('bin', f.ret, [rec, literal(r, f.ret)], v=r.choice(['+', '-', '*']))
        ss.append(SRet(e))
        f.body = SBlock(ss)
        f.p = f.g = True
        self.scope, self.cur = old
        self.rec.append(f)

    def rec_call(self, d):
        if not self.rec or self.loop > 1:
            return None
        r = self.r
        f = r.choice(self.rec)
        a = [N('lit', f.params[0][0].t, v=r.randrange(0, 6)), self.expr(f.params[1][0].t, 2, False, False)]
        v = Var(self.name(), f.ret)
        s = SDecl(v, N('call', f.ret, a, v=f, p=True, g=True), False)
        self.note(True, True)
        self.scope.vars.append(v)
        return s

    # ---- whole programs
    def build(self, nfuncs=4, nmain=14, nglob=3):
        r = self.r
        self.rec = []
        for _ in range(nglob):
            v = Var(self.name('g'), self.types_for(), r.random() < .2, glob=True)
            self.globals.append(v)
            self.decls.append(SDecl(v, literal(r, v.t), r.random() < .3))
        for _ in range(nfuncs):
            self.function()
        for _ in range(r.randrange(0, 2)):
            self.recursive()
        self.stmt_makers = list(self.stmt_makers) + [self.rec_call]
        self.scope, self.cur = Scope(), None
        ss = []
        for _ in range(nmain):
            ss.append(self.stmt(3))
        # every variable of main ends up in the output
        for v in self.scope.vars + self.globals:
            if v.t in SCALARS or hasattr(v.t, 'fmt'):
                self.tag += 1
                ss.append(SPrint('#end %s' % v.name, [N('var', v.t, v=v)]))
        self.main = SBlock([s for s in ss if s])

    decls = None

    def text(self):
        out = list(self.head()) if hasattr(self, 'head') else []
        for s in self.decls:
            out += s.lines(0)
        fs = [f.text() for f in self.fns + self.rec]
        self.order.shuffle(fs)
        for f in fs:
            out += [''] + f
        out += ['', 'func main() {'] + self.main.lines(1) + ['}', '']
        return '\n'.join(out)

    def run(self):
        m = Machine()
        for s in self.decls:
            s.ex(m)
        try:
            self.main.ex(m)
        except Ret:
            pass
        return m.out


def all_stmts(g):
    out = []

    def go(s):
        out.append(s)
        for k in s.kids():
            go(k)
    go(g.main)
    return out


def repair(g, tries=3000):
    """Evaluate until no node traps; returns the expected output lines."""
    for _ in range(tries):
        try:
            return g.run()
        except Trap as t:
            n = t.node
            ok = [k for k in n.k if (k.t is n.t or k.t == n.t) and k.op != 'widen' and n.op in ('bin', 'neg', 'inv', 'tern', 'group')]
            if t.why == 'range' and n.op == 'bin' and ok and g.r.random() < .5 and not g.widened(ok[0]):
                n.become(g.r.choice(ok[:1]))
            elif n.t in SCALARS:
                l = literal(g.r, n.t)
                if n.t not in ('bool', 'string'):
                    l.v = g.r.randrange(0, 9) if isint(n.t) else float(g.r.randrange(0, 9))
                p, gg = n.p, n.g
                n.become(l)
                n.p, n.g = p, gg
            else:
                raise Fuel()
    raise Fuel()


def generate(r, make):
    """make(r) builds a Gen; returns (text, expected lines, gen)."""
    for _ in range(60):
        g = make(r)
        try:
            out = repair(g)
        except (Fuel, RecursionError):
            continue
        if len(out) < 3:
            continue
        return g.text(), out, g
    raise RuntimeError('no program')


def make_scalar(r):
    import random
    g = Gen(r)
    g.order = random.Random(r.random())
    g.decls = []
    g.build(nfuncs=r.randrange(1, 6), nmain=r.randrange(8, 18), nglob=r.randrange(0, 4))
    return g


def program(r):
    return generate(r, make_scalar)[0]
