"""Random programs of compile time variables, conditions, loops, macros, defines and
reflection, with the lines they must print: what is computed while compiling equals
what the same expression yields when computed at run time."""

LIM = 1 << 40


class Skip(Exception):
    pass


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def show(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, float):
        return '%g' % v
    return str(v)


INT_OPS = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
CMP = ['<', '<=', '>', '>=', '==', '!=']


class Gen:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.budget = r.randint(12, 30)
        self.macros = []
        self.defs = {}
        self.depth = 0

    def id(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # ---- expressions: (kind, text, fn(env)); vars: name -> (kind, how it is read)
    def lit(self, kind):
        r = self.r
        if kind == 'int':
            v = r.choice([0, 1, 2, 3, 5, 7, 10, 63, 127, 128, 255, 256, 1000, 32768, 65535, 70000, 2147483647, 2147483648])
            k = r.random()
            t = str(v) if k < 0.7 else hex(v) if k < 0.85 else '0b' + bin(v)[2:]
            return t, lambda e: v
        if kind == 'float':
            v = r.choice([0.5, 1.5, 2.0, 0.25, 10.0, 100.75])
            return repr(v), lambda e: v
        if kind == 'bool':
            v = r.random() < 0.5
            return show(v), lambda e: v
        v = ''.join(r.choice('abcxyz_ 09') for _ in range(r.randint(0, 4)))
        return '"%s"' % v, lambda e: v

    def expr(self, kind, d, ct):
        t, f = self.expr0(kind, d, ct)
        try:
            f({})       # what is made of literals only is folded even where it is not reached
        except KeyError:
            pass
        return t, f

    def expr0(self, kind, d, ct):
        """ct: compile time variables may be read; otherwise run time ones"""
        r = self.r
        names = [n for n, k, c in self.vars if k == kind and c == ct]
        if d == 0 or r.random() < 0.15:
            if names and r.random() < 0.7:
                n = r.choice(names)
                return n, lambda e: e[n]
            return self.lit(kind)
        if kind == 'int':
            k = r.random()
            if self.macros and k < 0.1:
                m = r.choice(self.macros)
                args = [self.expr('int', d - 1, ct) for _ in range(m[1])]
                return '(%s!%s %s)' % (m[0], '(%s)' % ', '.join(a[0] for a in args) if m[1] else '', r.choice(['+ 0', '* 1', '- 0'])), lambda e: m[2]([a[1](e) for a in args])
            if k < 0.2:
                o = r.choice('-~+')
                t, f = self.expr('int', d - 1, ct)
                return '%s(%s)' % (o, t), lambda e: -f(e) if o == '-' else ~f(e) if o == '~' else f(e)
            if ct is None and k < 0.28:
                c, cf = self.expr('bool', d - 1, ct)
                a, af = self.expr('int', d - 1, ct)
                b, bf = self.expr('int', d - 1, ct)
                return '((%s) ? (%s) : (%s))' % (c, a, b), lambda e: af(e) if cf(e) else bf(e)
            o = r.choice(INT_OPS)
            a, af = self.expr('int', d - 1, ct)
            b, bf = self.expr('int', d - 1, ct)

            def f(e):
                x, y = af(e), bf(e)
                if o in '/%' and y == 0:
                    raise Skip()
                if o in ('<<', '>>') and not (0 <= y <= 12 and (x >= 0 or o == '>>')):
                    raise Skip()
                v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: cdiv(x, y),
                     '%': lambda: x - y * cdiv(x, y), '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '<<': lambda: x << y, '>>': lambda: x >> y}[o]()
                if abs(v) > LIM:
                    raise Skip()
                return v
            return '(%s %s %s)' % (a, o, b), f
        if kind == 'float':
            o = r.choice('+-*')
            a, af = self.expr('float', d - 1, ct)
            b, bf = self.expr('float', d - 1, ct)

            def g(e):
                x, y = af(e), bf(e)
                v = x + y if o == '+' else x - y if o == '-' else x * y
                if abs(v) > 1e5:
                    raise Skip()
                return v
            return '(%s %s %s)' % (a, o, b), g
        if kind == 'bool':
            k = r.random()
            if k < 0.15:
                t, f = self.expr('bool', d - 1, ct)
                return '!(%s)' % t, lambda e: not f(e)
            if k < 0.45:
                o = r.choice(['&&', '||'])
                a, af = self.expr('bool', d - 1, ct)
                b, bf = self.expr('bool', d - 1, ct)

                def h(e):
                    x, y = af(e), bf(e)
                    return (x and y) if o == '&&' else (x or y)
                return '(%s %s %s)' % (a, o, b), h
            sub = r.choice(['int', 'int', 'float'] + (['str'] if ct else []))
            o = r.choice(CMP if sub != 'str' else ['==', '!='])
            a, af = self.expr(sub, d - 1, ct)
            b, bf = self.expr(sub, d - 1, ct)

            def c(e):
                x, y = af(e), bf(e)
                return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[o]
            return '(%s %s %s)' % (a, o, b), c
        a, af = self.expr('str', d - 1, ct)
        b, bf = self.expr('str', d - 1, ct)

        def cat(e):
            v = af(e) + bf(e)
            if len(v) > 40:
                raise Skip()
            return v
        return '(%s + %s)' % (a, b), cat

    # ---- statements: (lines, run); run is called as the loops unroll
    def block(self):
        self.depth += 1
        mark = len(self.vars)
        out = [self.stmt() for _ in range(self.r.randint(1, 3))]
        del self.vars[mark:]
        self.depth -= 1
        return ['    ' + l for s in out for l in s[0]], lambda e: [s[1](e) for s in out]

    def kind(self):
        return self.r.choice(['int', 'int', 'int', 'bool', 'float', 'str'])

    def stmt(self):
        r = self.r
        self.budget -= 1
        k = r.random()
        if self.depth > 3 or self.budget < 0:
            k = min(k, 0.29)
        if k < 0.3:
            kind = self.kind()
            t, f = self.expr(kind, r.randint(0, 3), True)
            n = self.id('t')
            return ['println("%s ", #{%s});' % (n, t)], lambda e: self.out.append('%s %s' % (n, show(f(e))))
        if k < 0.4:
            # folded and at run time
            kind = r.choice(['int', 'bool', 'float'])
            t, f = self.expr(kind, r.randint(1, 3), False)
            n = self.id('r')
            return ['println("%s ", %s);' % (n, t)], lambda e: self.out.append('%s %s' % (n, show(f(e))))
        if k < 0.5 and self.depth == 0:
            kind = self.kind()
            t, f = self.expr(kind, r.randint(0, 3), True)
            n = self.id('c')
            self.vars.append((n, kind, True))

            def run(e):
                e[n] = f(e)
            return ['#const %s = %s;' % (n, t)], run
        if k < 0.6:
            muts = [v for v in self.vars if v[2] is True and v[0][0] == 'c']
            if muts:
                n, kind, _ = r.choice(muts)
                t, f = self.expr(kind, r.randint(0, 2), True)

                def run2(e):
                    e[n] = f(e)
                return ['#{%s = %s};' % (n, t)], run2
        if k < 0.68:
            t, f = self.expr('int', r.randint(0, 2), True)

            def run3(e):
                e['w'] += f(e)
                if abs(e['w']) > LIM:
                    raise Skip()
                self.out.append('w %d' % e['w'])
            return ['w = w + <i64>#{%s}; println("w ", w);' % t], run3
        if k < 0.84:
            c, cf = self.expr('bool', r.randint(0, 2), True)
            a, af = self.block()
            lines = ['#if (%s) {' % c] + a + ['}']
            arms = [(cf, af)]
            for _ in range(r.choice([0, 0, 1, 2])):
                c2, cf2 = self.expr('bool', r.randint(0, 2), True)
                b, bf = self.block()
                lines += ['else #if (%s) {' % c2] + b + ['}']
                arms.append((cf2, bf))
            if r.random() < 0.6:
                b, bf = self.block()
                lines += ['else {'] + b + ['}']
                arms.append((lambda e: True, bf))

            def run4(e):
                for cond, body in arms:
                    if cond(e):
                        return body(e)
            return lines, run4
        n = self.id('it')
        w = r.random()
        if w < 0.5:
            a = r.randint(0, 3)
            b = a + r.randint(0, 4)
            head, vals, kind = '%d..%d' % (a, b), list(range(a, b)), 'int'
        elif w < 0.8:
            vals = [r.randint(0, 300) for _ in range(r.randint(1, 4))]
            head, kind = '[%s]' % ', '.join(map(str, vals)), 'int'
        else:
            vals = [r.choice(['ab', 'x', '', 'q r']) for _ in range(r.randint(1, 3))]
            head, kind = '[%s]' % ', '.join('"%s"' % v for v in vals), 'str'
        self.vars.append((n, kind, True))
        l, f = self.block()
        self.vars.remove((n, kind, True))

        def run5(e):
            for v in vals:
                e[n] = v
                self.steps += 1
                if self.steps > 200:
                    raise Skip()
                f(e)
        return ['#for (const %s: %s) {' % (n, head)] + l + ['}'], run5

    def make(self):
        r = self.r
        self.vars = []
        top = []
        for _ in range(r.randint(0, 3)):
            n = self.id('M')
            k = r.randrange(3)
            c = r.randint(1, 9)
            if k == 0:
                top.append('macro %s %d' % (n, c))
                self.macros.append((n, 0, lambda a, c=c: c))
            elif k == 1:
                top.append('macro %s(x) x! + %d' % (n, c))
                self.macros.append((n, 1, lambda a, c=c: a[0] + c))
            else:
                top.append('macro %s(x, y) =(x! - y! + %d)' % (n, c))
                self.macros.append((n, 2, lambda a, c=c: a[0] - a[1] + c))
        args = []
        for i in range(r.randint(0, 2)):
            n = self.id('D')
            v = r.choice([0, 1, 5, 300])
            args.append('-D%s=%d' % (n, v))
            self.macros.append((n, 0, lambda a, v=v: v))
            self.defs[n] = v
        rt = []
        for i in range(2):
            v = r.choice([0, 1, -3, 7, 100])
            n = self.id('v')
            rt.append((n, v))
            self.vars.append((n, 'int', False))
        body = [self.stmt() for _ in range(r.randint(5, 10))]
        tests = list(self.defs) + ['Z1', 'Z2']
        for n in tests:
            body.append((['#if (%sdefined %s) { println("d %s"); } else { println("u %s"); }' % (r.choice(['', '!']), n, n, n)], None))
        lines = top + ['func main() {', '    var w = 0`i64;'] + ['    var %s = %d`i64;' % (n, v) if v >= 0 else '    var %s = 0`i64 - %d`i64;' % (n, -v) for n, v in rt]
        self.out = []
        self.steps = 0
        e = dict(rt, w=0)
        for l, f in body:
            lines += ['    ' + x for x in l]
            if f:
                f(e)
            else:
                n = l[0].split('defined ')[1].split(')')[0]
                yes = (n in self.defs) != ('!defined' in l[0])
                self.out.append(('d ' if yes else 'u ') + n)
        return '\n'.join(lines + ['}']) + '\n', self.out, args


def make(r):
    for _ in range(1000):
        try:
            return Gen(r).make()
        except Skip:
            continue
    raise RuntimeError('no program')


# ---- what types and declarations say of themselves
PRE = '''struct St { a: i32; b: string; }
struct StD { a: i32; func `deinit`() {} }
class Cl { x: i64; func `init`(x: i64) { this.x = x; } }
class Dv : Cl { y: i32; func `init`() { super(1`i64); } func `deinit`() { } }
enum En { One = 1, Two }
'''
ASKED = ('isInteger isUnsigned isFloat isNumber isOptional isPointer isStruct isClass isTuple isUnion isBoolean isChar '
         'isArray isSlice isEnum isVoid isFunction isString hasDeinit').split()
TYPES = {
    'i8': 'isInteger isNumber', 'i16': 'isInteger isNumber', 'i32': 'isInteger isNumber', 'i64': 'isInteger isNumber',
    'u8': 'isInteger isUnsigned isNumber', 'u16': 'isInteger isUnsigned isNumber',
    'u32': 'isInteger isUnsigned isNumber', 'u64': 'isInteger isUnsigned isNumber',
    'f32': 'isFloat isNumber', 'f64': 'isFloat isNumber', 'bool': 'isBoolean', 'string': 'isString',
    'St': 'isStruct', 'StD': 'isStruct hasDeinit', 'Cl': 'isClass', 'Dv': 'isClass hasDeinit',
    '(i32, bool)': 'isTuple', '(Cl, i32, string)': 'isTuple', '[i32, 4]': 'isArray', '[string, 2]': 'isArray',
    '[i32]': 'isStruct isSlice', 'i32?': 'isStruct isOptional', 'Cl?': 'isStruct isOptional', '^i32': 'isPointer', '^St': 'isPointer',
    'i32 | bool': 'isUnion', 'string | f64 | i8': 'isUnion', 'func(x: i32) -> void': 'isFunction', 'void': 'isVoid',
    'char': 'isChar', 'wchar': 'isChar', 'En': 'isEnum',
}
# not said: numbers of char and enum types
OPEN = {'char': ['isNumber'], 'wchar': ['isNumber'], 'En': ['isNumber']}
SIZES = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'f32': 4, 'f64': 8,
         '^i32': 8, '^St': 8, 'string': 8, 'Cl': 8, '[i32, 4]': 16, '[string, 2]': 16, 'St': 16}


def reflect(r):
    lines, out = [PRE.rstrip()], []
    body = []
    k = 0
    names = r.sample(sorted(TYPES), r.randint(3, 6))
    for t in names:
        k += 1
        yes = TYPES[t].split()
        ask = [p for p in r.sample(ASKED, r.randint(4, 10)) if p not in OPEN.get(t, ())]
        way = r.choice(['alias', 'generic', 'member', 'tuple'])
        if t == 'void':
            way = 'alias'
        if way == 'alias':
            lines.append('type T%d = %s' % (k, t))
            x = 'T%d' % k
            show_ = body
        elif way == 'generic':
            lines.append('func g%d[T]() {' % k)
            x = 'T'
            show_ = []
        elif way == 'member':
            lines.append('struct M%d { before: i32; it: %s; }' % (k, t))
            body.append('#for (const m: #{M%d.members}) { #if (m.name == "it") {' % k)
            body.append('    #const X%d = m.Tinfo;' % k)
            x = 'X%d' % k
            show_ = body
        else:
            i = r.randint(0, 1)
            lines.append('type U%d = (%s)' % (k, ', '.join([t, 'i32'] if i == 0 else ['i32', t])))
            body.append('#const X%d = typeat!(#U%d, %d);' % (k, k, i))
            x = 'X%d' % k
            show_ = body
        for p in ask:
            form = r.randrange(2)
            v = p in yes
            if form:
                show_.append('println("%d.%s ", #{%s.%s});' % (k, p, x, p))
            else:
                show_.append('#if (%s.%s) { println("%d.%s true"); } else { println("%d.%s false"); }' % (x, p, k, p, k, p))
            out.append('%d.%s %s' % (k, p, show(v)))
        if t in SIZES and way in ('alias', 'generic'):
            show_.append('println("%d.size ", sizeof!(#%s));' % (k, x))
            out.append('%d.size %d' % (k, SIZES[t]))
        if way == 'generic':
            lines += ['    ' + s for s in show_] + ['}']
            body.append('g%d[%s]();' % (k, t))
        elif way == 'member':
            body.append('} }')
    # a declaration read member by member
    for _ in range(r.randint(1, 2)):
        k += 1
        cls = r.random() < 0.5
        fields, desc = [], []
        for i in range(r.randint(0, 5)):
            n = r.choice(['alpha', 'b', 'count', 'data_', 'e2']) + str(i)
            t = r.choice([t for t in TYPES if t not in ('void', 'i32 | bool', 'string | f64 | i8', 'func(x: i32) -> void')])
            tag = r.choice([None, None, '@tag', '@tag("x%d")' % i, '@tag(name: "y%d", id: %d)' % (i, i)])
            fields.append((n, t, tag))
        meths = ['m%d' % i for i in range(r.randint(0, 2))]
        d = ['%s D%d {' % ('class' if cls else 'struct', k)]
        order = [('f', f) for f in fields] + [('m', m) for m in meths]
        r.shuffle(order)
        for what, f in order:
            if what == 'f':
                if f[2]:
                    d.append('    ' + f[2])
                d.append('    %s: %s;' % (f[0], f[1]))
            else:
                d.append('    func %s(): i32 { return 1`i32; }' % f)
        lines += d + ['}']
        body.append('#const n%d = 0;' % k)
        body.append('#for (const m: #{D%d.members}) {' % k)
        body.append('    #if (m.isField) {')
        body.append('        println("%d.", #{m.name}, " ", #{m.Tinfo.isInteger}, #{m.Tinfo.isStruct}, #{m.Tinfo.isClass});' % k)
        body.append('        #{n%d = n%d + 1};' % (k, k))
        body.append('        #const at%d = m.attributes.["tag"];' % k)
        body.append('        #if (at%d) { println("tagged"); } else { println("plain"); }' % k)
        body.append('    } else #if (m.isFunction) { #if (m.name == "m0" || m.name == "m1") { println("%d.fn ", #{m.name}); } }' % k)
        body.append('}')
        body.append('println("%d.fields ", #{n%d}, " ", #{D%d.name});' % (k, k, k))
        for what, f in order:
            if what == 'f':
                yes = TYPES[f[1]].split()
                out.append('%d.%s %s%s%s' % (k, f[0], show('isInteger' in yes), show('isStruct' in yes), show('isClass' in yes)))
                out.append('tagged' if f[2] else 'plain')
            else:
                out.append('%d.fn %s' % (k, f))
        out.append('%d.fields %d D%d' % (k, len(fields), k))
        for n, t, _ in fields:
            if t in ('i32', 'string', 'Cl', 'St', 'bool', 'f64'):
                other = r.choice(['i32', 'string', 'Cl', 'St', 'bool', 'f64'])
                body.append('println("%d.has ", has_member!(#D%d, "%s", #%s), " ", has_member!(#D%d, "%sx", #%s));' % (k, k, n, other, k, n, t))
                out.append('%d.has %s false' % (k, show(other == t)))
    for a in ('Cl', 'Dv', 'St'):
        b = r.choice(['Cl', 'Dv'])
        if a != 'St':
            body.append('println("base ", is_base_of!(#%s, #%s));' % (b, a))
            out.append('base ' + show(b == 'Cl' and a == 'Dv'))
    return '\n'.join(lines + ['func main() {'] + ['    ' + x for x in body] + ['}']) + '\n', out, []
