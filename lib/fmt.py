"""Programs that print values of random nested types in every way the language
offers (println, <<, interpolated strings, String, BufferedOutputStream, a memory
buffer), and the text each of them has to be."""
import struct

import coll
from strs import lit

CHARS = 'abcxyz019 .,-+*/%$#@!?<>()[]{}|~^_&:;='
WCH = 'aéß日本😀Ωñ~ '
STRS = ['', 'a', 'hello', ' sp ', 'tab\t', 'é日', '😀', '100%', '%d', '{x}', 'nl\\', "it's", '"q"', 'a' * 40]


def slit(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\t', '\\t') + '"'


class T:
    """a type: its name, and how to make a literal and the text of it"""
    name = ''
    quoted = ''

    def gen(self, r):
        raise NotImplementedError


class Int(T):
    def __init__(self, bits, signed):
        self.bits, self.signed = bits, signed
        self.name = '%s%d' % ('i' if signed else 'u', bits)

    def gen(self, r):
        hi = (1 << (self.bits - self.signed)) - 1
        lo = -(hi + 1) if self.signed else 0
        v = r.choice([0, 1, hi, hi - 1, r.randint(0, hi), r.randint(0, 100)] + ([-1, lo + 1, r.randint(lo + 1, 0)] if self.signed else []))
        v = max(lo, min(hi, v))
        if v < 0:
            return '(-%d`%s)' % (-v, self.name), str(v)
        return '%d`%s' % (v, self.name), str(v)


class Flt(T):
    def __init__(self, bits):
        self.bits, self.name = bits, 'f%d' % bits

    def gen(self, r):
        # few digits, so that both widths print the same
        v = r.choice([0.0, 1.0, 0.5, 0.1, 0.25, r.randint(0, 9999) / 8.0, r.randint(1, 999) / 1000.0,
                      float(r.randint(1, 99) * 10 ** r.randint(0, 9)), r.randint(1, 9) / 10.0 ** r.randint(1, 7)])
        t = ('%.10f' % v).rstrip('0')
        t += '0' if t.endswith('.') else ''
        neg = r.random() < .3
        x = float(t)
        if self.bits == 32:
            x = struct.unpack('f', struct.pack('f', x))[0]
        if neg:
            return '<%s>(-%s)' % (self.name, t), '%g' % -x
        return '<%s>%s' % (self.name, t), '%g' % x


class Bool(T):
    name = 'bool'

    def gen(self, r):
        v = r.choice(['true', 'false'])
        return v, v


class Char(T):
    name = 'char'
    quoted = "'"

    def gen(self, r):
        c = r.choice(CHARS)
        return "'%s'`char" % c, c


class WChar(T):
    name = 'wchar'
    quoted = "'"

    def gen(self, r):
        c = r.choice(WCH)
        return "'%s'" % c, c


class Str(T):
    name = 'string'
    quoted = '"'

    def gen(self, r):
        s = r.choice(STRS)
        return slit(s), s


class String(T):
    name = 'String'
    quoted = '"'

    def gen(self, r):
        s = r.choice(STRS)
        return 'String(%s)' % slit(s), s


class Enum(T):
    def __init__(self, r, name):
        self.name = name
        self.items = []
        decl = []
        v = 0
        for i in range(r.randint(1, 6)):
            n = 'V%d' % i
            a = ''
            text = '%s.%s' % (name, n)
            if r.random() < .35:
                text = r.choice(['one', 'two words', '', 'é', 'V0', '%s', '{'])
                if text == '':
                    text = 'x'
                a = '@str(%s) ' % slit(text)
            init = ''
            if r.random() < .3:
                v += r.randint(1, 50)
                init = ' = %d' % v
            v += 1
            decl.append(a + n + init)
            self.items.append((n, text))
        self.decl = 'enum %s { %s }' % (name, ', '.join(decl))

    def gen(self, r):
        n, t = r.choice(self.items)
        return '%s.%s' % (self.name, n), t


class Struct(T):
    def __init__(self, r, name, types):
        self.name = name
        self.fields = [('f%d' % i, r.choice(types)) for i in range(r.randint(1, 5))]
        self.custom = r.random() < .2
        m = ''
        if self.custom:
            m = ' const func `str`(os: &OutputStream) { os << "<" << f0 << ">"; }'
        self.decl = 'struct %s { %s;%s }' % (name, '; '.join('%s: %s' % (n, t.name) for n, t in self.fields), m)

    def gen(self, r):
        vs = [(n, t, t.gen(r)) for n, t in self.fields]
        lit_ = '%s{%s}' % (self.name, ', '.join('%s: %s' % (n, v[0]) for n, t, v in vs))
        if self.custom:
            return lit_, '<%s>' % vs[0][2][1]
        return lit_, '%s{%s}' % (self.name, ', '.join('%s: %s%s%s' % (n, t.quoted, v[1], t.quoted) for n, t, v in vs))


class Class(T):
    def __init__(self, r, name, types):
        self.name = name
        t = self.t = r.choice(types)
        self.decl = ('class %s { v: %s; n: i32; func `init`(v: %s, n: i32) { this.v = v; this.n = n; } '
                     'const func `str`(os: &OutputStream) { os << "%s(" << v << "/" << n << ")"; } }' % (name, t.name, t.name, name))

    def gen(self, r):
        a, b = self.t.gen(r)
        n = r.randint(0, 9)
        return '%s(%s, %d)' % (self.name, a, n), '%s(%s/%d)' % (self.name, b, n)


class Tuple(T):
    def __init__(self, ts):
        self.ts = ts
        self.name = '(%s)' % ', '.join(t.name for t in ts)

    def gen(self, r):
        vs = [t.gen(r) for t in self.ts]
        return '(%s)' % ', '.join(v[0] for v in vs), '(%s)' % ', '.join(v[1] for v in vs)


class Array(T):
    def __init__(self, t, n):
        self.t, self.n = t, n
        self.name = '[%s, %d]' % (t.name, n)

    def gen(self, r):
        vs = [self.t.gen(r) for _ in range(self.n)]
        return '[%s]' % ', '.join(v[0] for v in vs), '[%s]' % ', '.join(v[1] for v in vs)


class Opt(T):
    def __init__(self, t):
        self.t = t
        self.name = '%s?' % t.name

    def gen(self, r):
        if r.random() < .4:
            return 'None[%s]()' % self.t.name, 'null'
        a, b = self.t.gen(r)
        return 'Some[%s](%s)' % (self.t.name, a), b


class Union(T):
    def __init__(self, name, ts):
        self.name, self.ts = name, ts
        self.decl = 'type %s = %s' % (name, ' | '.join(t.name for t in ts))

    def gen(self, r):
        return r.choice(self.ts).gen(r)


SCALARS = [Int(b, s) for b in (8, 16, 32, 64) for s in (0, 1)] + [Flt(32), Flt(64), Bool(), Char(), WChar(), Str(), Str()]


def build(r):
    decls = []
    pool = list(SCALARS) + [String()] * 2
    for i in range(r.randint(1, 2)):
        e = Enum(r, 'E%d' % i)
        decls.append(e.decl)
        pool += [e, e]
    plain = list(pool)
    unions = []
    n = 0
    for i in range(r.randint(2, 6)):
        k = r.choice(['struct', 'struct', 'class', 'tuple', 'array', 'opt', 'union'])
        if k == 'struct':
            t = Struct(r, 'S%d' % i, pool)
            decls.append(t.decl)
        elif k == 'class':
            t = Class(r, 'C%d' % i, plain)
            decls.append(t.decl)
        elif k == 'union':
            ts = []
            for x in r.sample(pool, min(len(pool), 4)):
                if not isinstance(x, (Opt, Array, Union, Tuple)) and x.name not in [y.name for y in ts] and \
                        not (isinstance(x, (Str, String)) and any(isinstance(y, (Str, String)) for y in ts)):
                    ts.append(x)
            if len(ts) < 2:
                continue
            t = Union('U%d' % i, ts)
            decls.append(t.decl)
            unions.append(t)
            continue
        elif k == 'tuple':
            t = Tuple([r.choice(pool) for _ in range(r.randint(2, 4))])
        elif k == 'array':
            # (objects in arrays are not dropped: recorded finding)
            c = [x for x in pool if isinstance(x, (Int, Flt, Bool, Str, Enum))]
            t = Array(r.choice(c), r.randint(1, 4))
        else:
            t = Opt(r.choice([x for x in pool if not isinstance(x, (Opt, Array))]))
        pool += [t] * 4
        n += 1
    # (unions are values of their own: literals do not convert inside other literals)
    pool += unions * 2
    body, out = [], []
    u = [0]

    def var(t):
        a, b = t.gen(r)
        u[0] += 1
        nm = 'v%d' % u[0]
        body.append('var %s: %s = %s;' % (nm, t.name, a))
        return nm, b, t

    def emit(s):
        out.append(s)
    for i in range(r.randint(6, 14)):
        t = r.choice(pool)
        k = r.choice(['println', 'println', 'many', 'shift', 'interp', 'String', 'buffered', 'memory', 'field', 'ref', 'repeat', 'print'])
        if k == 'println':
            v, b, t = var(t)
            body.append('println(%s);' % v)
            emit(b)
        elif k == 'many':
            vs = [var(r.choice(pool)) for _ in range(r.randint(2, 4))]
            body.append('println(%s);' % ', "|", '.join(v[0] for v in vs))
            emit('|'.join(v[1] for v in vs))
        elif k == 'shift':
            v, b, t = var(t)
            w, d, _ = var(r.choice(pool))
            body.append("stdout << \"<\" << %s << %s << '\\n';" % (v, w))
            emit('<' + b + d)
        elif k == 'interp':
            vs = [var(r.choice(pool)) for _ in range(r.randint(1, 3))]
            body.append('println(f"a %s z");' % ' - '.join('${%s}' % v[0] for v in vs))
            emit('a %s z' % ' - '.join(v[1] for v in vs))
        elif k == 'String':
            v, b, t = var(t)
            u[0] += 1
            body.append('var s%d = String(); s%d << %s << "." << %s; println(s%d.size(), " ", s%d);' % (u[0], u[0], v, v, u[0], u[0]))
            s = b + '.' + b
            emit('%d %s' % (len(s.encode()), s))
        elif k == 'buffered':
            u[0] += 1
            vs = [var(r.choice(pool)) for _ in range(r.randint(1, 5))]
            cap = r.choice([1, 2, 7, 16, 64, 4096])
            body.append('{ var o = Out(%d`u64); %s o.sync(); println("=", o.got()); }' % (cap, ' '.join('o << %s << \';\';' % v[0] for v in vs)))
            emit('=' + ''.join(v[1] + ';' for v in vs))
        elif k == 'memory':
            v, b, t = var(t)
            u[0] += 1
            body.append('{ var buf: [char, 2000] = []; var o = MemoryOutputStream(buf !: ^void, 2000`u64); o << %s; '
                        'println(o.size(), " ", o); }' % v)
            emit('%d %s' % (len(b.encode()), b))
        elif k == 'field':
            v, b, t = var(t)
            u[0] += 1
            body.append('var t%d = (1`i32, %s); println(t%d.1, t%d);' % (u[0], v, u[0], u[0]))
            emit('%s(1, %s)' % (b, b))
        elif k == 'ref':
            v, b, t = var(t)
            body.append('show(&%s);' % v)
            emit('[' + b + ']')
        elif k == 'repeat':
            n = r.choice([0, 1, 7])
            body.append("println(Repeat('%s'`char, %d`u64), \"!\");" % ('*', n))
            emit('*' * n + '!')
        elif k == 'print':
            s = r.choice(STRS)
            body.append('print(%s); println("");' % slit(s))
            emit(s)
    text = '''class Out : BufferedOutputStream {
  data: String;
  func `init`(n: u64) { super(n); this.data = String(); }
  func flush(p: ^const void, size: u64): void { data.append(p !: ^const char, size); }
  func got(): String => data
}
func show[X](x: &const X) { stdout << "[" << x << "]\\n"; }
%s
func history() {
%s
}
func main(args: [string]) {
  history();
}
''' % ('\n'.join(decls), '\n'.join('  ' + x for x in body))
    return 'values', text, lambda seeds: out


coll.MAKERS['values'] = build
