"""Program fragments over aggregates, objects, closures and generics: every
fragment is a history of random operations rendered as cxy and executed, at the
same time, on a Python model; what the program has to print is the model's
account.  Fragments are independent of each other, a program holds several, each
in a function of its own that is called once or more."""
import copy

LET = 'abcdefghkmpqrw'


def fmt_f(v):
    return '%g' % v


class Frag:
    def __init__(self, r, u):
        self.r, self.u = r, u
        self.pre, self.body, self.out = [], [], []
        self.n = 0

    def name(self, p='v'):
        self.n += 1
        return '%s%dx' % (p, self.n)

    def st(self, s):
        self.body.append('  ' + s)

    def pr(self, *pairs):
        """println of (expression, text) pairs"""
        self.st('println(%s);' % ', " ", '.join(e for e, _ in pairs))
        self.out.append(' '.join(t for _, t in pairs))

    def lit(self, t, v=None, quiet=False):
        """(source, value) of a literal of scalar type t"""
        r = self.r
        if t == 'bool':
            v = r.random() < .5 if v is None else v
            return ('true' if v else 'false'), v
        if t == 'string':
            v = ''.join(r.choice(LET) for _ in range(r.randint(0, 6))) if v is None else v
            return '"%s"' % v, v
        if t in ('f64', 'f32'):
            v = r.randint(-400, 400) / 4 if v is None else v
            s = '%r' % abs(v)
            if t == 'f32':
                s = '(%s as f32)' % s
            return ('-' + s if v < 0 else s), v
        lim = {'i8': 30, 'u8': 60, 'i16': 900, 'u16': 900}.get(t, 5000)
        if v is None:
            v = r.randint(0 if t[0] == 'u' else -lim, lim)
        s = '%d`%s' % (abs(v), t)
        return ('-' + s if v < 0 else s), v

    def show(self, t, v, inner=False):
        if t == 'bool':
            return 'true' if v else 'false'
        if t == 'string':
            return '"%s"' % v if inner else v
        if t in ('f64', 'f32'):
            return fmt_f(v)
        return str(v)


SC = ['i32', 'i64', 'u8', 'i16', 'u32', 'bool', 'string', 'f64', 'u64']
INT = ['i32', 'i64', 'u8', 'i16', 'u32', 'u64']


# ------------------------------------------------------------ values
class T:
    """A value type: scalar, enum, struct or tuple.  Values are Python lists
    (structs, tuples) or scalars; `name` is how the type is written."""

    def __init__(self, kind, name, fields=(), **kw):
        self.kind, self.name, self.fields = kind, name, list(fields)
        self.__dict__.update(kw)


def value_world(f):
    r = f.r
    types, structs = [T('s', s) for s in r.sample(SC, 4)], []
    types.append(T('s', 'i32'))
    en = 'E%s' % f.u
    names = ['Aa', 'Bb', 'Cc', 'Dd', 'Ee'][:r.randint(2, 5)]
    f.pre.append('enum %s { %s }' % (en, ', '.join(
        n + (' = %d' % (i * 3 + r.randint(0, 2)) if r.random() < .4 else '') for i, n in enumerate(names))))
    types.append(T('e', en, names=names))

    def fresh_struct():
        k = len(structs)
        nm = 'S%s_%d' % (f.u, k)
        fs = [('abcefghk'[i], r.choice(types)) for i in range(r.randint(1, 5))]
        defaults, lines = {}, []
        t = T('t', nm, fs)
        t.kind = 'st'
        for n, ft in fs:
            if ft.kind == 's' and r.random() < .35:
                s, v = f.lit(ft.name)
                defaults[n] = v
                lines.append('%s: %s = %s;' % (n, ft.name, s))
            else:
                lines.append('%s: %s;' % (n, ft.name))
        t.defaults = defaults
        # a method that changes one integer field in place and one that reads it
        t.mut = [i for i, (n, ft) in enumerate(fs) if ft.kind == 's' and ft.name in ('i32', 'i64')]
        meth = []
        for i in t.mut:
            n, ft = fs[i]
            meth.append('func add_%s(d: %s) { %s %s; }' % (n, ft.name, n, r.choice(['+= d', '= %s + d' % n])))
            meth.append('const func get_%s(d: %s): %s => %s * d' % (n, ft.name, ft.name, n))
            meth.append('func twice_%s(d: %s): %s { add_%s(d); add_%s(d); return %s; }' % (n, ft.name, ft.name, n, n, n))
        if r.random() < .5 and t.mut:
            n, ft = fs[t.mut[0]]
            t.plus = t.mut[0]
            meth.append('func `+`(o: &const This): This { var z = &&*this; return z; }' if 0 else '')
        f.pre.append('struct %s { %s\n  %s\n}' % (nm, ' '.join(lines), '\n  '.join(m for m in meth if m)))
        structs.append(t)
        types.append(t)

    def fresh_tuple():
        ms = [r.choice(types) for _ in range(r.randint(2, 3))]
        types.append(T('tu', '(%s)' % ', '.join(m.name for m in ms), [(str(i), m) for i, m in enumerate(ms)]))

    for _ in range(r.randint(2, 4)):
        fresh_struct()
        if r.random() < .5:
            fresh_tuple()
    aggr = [t for t in types if t.kind in ('st', 'tu')]

    def make(t):
        if t.kind == 's':
            return f.lit(t.name)
        if t.kind == 'e':
            i = r.randrange(len(t.names))
            return '%s.%s' % (t.name, t.names[i]), i
        if t.kind == 'tu':
            p = [make(m) for _, m in t.fields]
            return '(%s)' % ', '.join(s for s, _ in p), [v for _, v in p]
        src, val = [], []
        for n, ft in t.fields:
            if n in t.defaults and r.random() < .5:
                val.append(t.defaults[n])
                continue
            s, v = make(ft)
            src.append((n, s))
            val.append(v)
        if r.random() < .3:
            r.shuffle(src)
        return '%s{%s}' % (t.name, ', '.join('%s: %s' % x for x in src)), val

    def show(t, v, inner=False):
        if t.kind == 's':
            return f.show(t.name, v, inner)
        if t.kind == 'e':
            return '%s.%s' % (t.name, t.names[v])
        if t.kind == 'tu':
            return '(%s)' % ', '.join(show(m, x) for (_, m), x in zip(t.fields, v))
        return '%s{%s}' % (t.name, ', '.join('%s: %s' % (n, show(ft, x, True)) for (n, ft), x in zip(t.fields, v)))

    env = []      # (source, type, container, key): a place

    def places(want=None):
        out = []

        def go(src, t, box, key):
            if want is None or want(t):
                out.append((src, t, box, key))
            if t.kind in ('st', 'tu'):
                for i, (n, ft) in enumerate(t.fields):
                    go('%s.%s' % (src, n), ft, box[key], i)
        for v in env:
            go(*v)
        return out

    def declare(t, src, val, const=False):
        n = f.name()
        f.st('%s %s%s = %s;' % ('const' if const else 'var', n, '', src))
        env.append((n, t, [val], 0))

    arrays = []

    def op_lit():
        t = r.choice(aggr)
        declare(t, *make(t))

    def op_copy():
        s, t, box, k = r.choice(places(lambda t: t.kind in ('st', 'tu')))
        declare(t, s, copy.deepcopy(box[k]))

    def op_assign():
        s, t, box, k = r.choice(places())
        same = [p for p in places(lambda x: x is t) if p[0] != s]
        if same and r.random() < .6:
            s2, _, b2, k2 = r.choice(same)
            # a place inside or around the other would alias, values are copied first
            if s2.startswith(s + '.') or s.startswith(s2 + '.'):
                return
            f.st('%s = %s;' % (s, s2))
            box[k] = copy.deepcopy(b2[k2])
        else:
            src, v = make(t)
            f.st('%s = %s;' % (s, src))
            box[k] = v

    def op_print():
        s, t, box, k = r.choice(places())
        f.pr((s, show(t, box[k])))

    def op_print_all():
        for s, t, box, k in env:
            f.pr((s, show(t, box[k])))

    def op_method():
        c = places(lambda t: t.kind == 'st' and t.mut)
        if not c:
            return
        s, t, box, k = r.choice(c)
        i = r.choice(t.mut)
        n, ft = t.fields[i]
        src, d = f.lit(ft.name, r.randint(-9, 9))
        w = r.random()
        v = box[k]
        if w < .4:
            f.st('%s.add_%s(%s);' % (s, n, src))
            v[i] += d
        elif w < .7:
            if abs(v[i]) > 1e6:
                return
            f.pr(('%s.get_%s(%s)' % (s, n, src), str(v[i] * d)))
        else:
            v[i] += 2 * d
            f.pr(('%s.twice_%s(%s)' % (s, n, src), str(v[i])))

    def op_byref():
        s, t, box, k = r.choice(places(lambda t: t.kind in ('st', 'tu')))
        fn = f.name('ref%s_' % f.u)
        fields = [(i, n, ft) for i, (n, ft) in enumerate(t.fields) if ft.kind in 'se']
        if not fields:
            return
        lines = []
        for i, n, ft in r.sample(fields, r.randint(1, len(fields))):
            src, v = make(ft)
            lines.append('p.%s = %s;' % (n, src))
            box[k][i] = v
        f.pre.append('func %s(p: &%s) { %s }' % (fn, t.name, ' '.join(lines)))
        f.st('%s(&%s);' % (fn, s))

    def op_byval():
        s, t, box, k = r.choice(places(lambda t: t.kind in ('st', 'tu')))
        fn = f.name('val%s_' % f.u)
        fields = [(i, n, ft) for i, (n, ft) in enumerate(t.fields)]
        c = copy.deepcopy(box[k])
        lines = []
        for i, n, ft in r.sample(fields, r.randint(1, len(fields))):
            src, v = make(ft)
            lines.append('p.%s = %s;' % (n, src))
            c[i] = v
        f.pre.append('func %s(p: %s): %s { %s return p; }' % (fn, t.name, t.name, ' '.join(lines)))
        w = r.random()
        if w < .4:
            declare(t, '%s(%s)' % (fn, s), c)
        elif w < .7:
            f.st('%s = %s(%s);' % (s, fn, s))
            box[k] = c
        else:
            f.pr(('%s(%s)' % (fn, s), show(t, c)))
            f.pr((s, show(t, box[k])))

    def op_make():
        t = r.choice(aggr)
        src, v = make(t)
        fn = f.name('mk%s_' % f.u)
        f.pre.append('func %s(): %s%s' % (fn, t.name, r.choice([' => ' + src, ' { return %s; }' % src,
                                                                 ' { var z = %s; return z; }' % src])))
        i = r.randrange(len(t.fields))
        n, ft = t.fields[i]
        if r.random() < .5:
            f.pr(('%s().%s' % (fn, n), show(ft, v[i])))
        else:
            declare(t, '%s()' % fn, v)

    def op_array():
        t = r.choice(aggr)
        es = []
        for _ in range(r.randint(2, 4)):
            same = places(lambda x: x is t)
            if same and r.random() < .5:
                s, _, b, k = r.choice(same)
                es.append((s, copy.deepcopy(b[k])))
            else:
                es.append(make(t))
        n = f.name('a')
        f.st('var %s = [%s];' % (n, ', '.join(s for s, _ in es)))
        vals = [v for _, v in es]
        arrays.append((n, t, vals))
        for i in range(len(es)):
            env.append(('%s.[%d]' % (n, i), t, vals, i))

    def op_loop():
        if not arrays:
            return
        n, t, vals = r.choice(arrays)
        if r.random() < .5:
            f.st('for (const e: %s) { println(e); }' % n)
            f.out.extend(show(t, v) for v in vals)
        else:
            i = f.name('i')
            f.st('for (const %s: 0..%d) { println(%s, " ", %s.[%s]); }' % (i, len(vals), i, n, i))
            f.out.extend('%d %s' % (i, show(t, v)) for i, v in enumerate(vals))

    def op_block():
        # the same operations under control flow that is known to the model only
        depth = len(env), len(arrays)
        src, v = f.lit('bool')
        n = f.name('c')
        f.st('var %s = %s;' % (n, src))
        w = r.random()
        if w < .5:
            b, o = len(f.body), len(f.out)
            snap = copy.deepcopy([e[2] for e in env])
            f.st('if (%s) {' % n)
            for _ in range(r.randint(1, 3)):
                r.choice(simple)()
            f.st('}')
            if not v:
                # not executed: undo what the model did
                del f.out[o:]
                for e, s in zip(env, snap):
                    e[2][:] = s
        else:
            f.st('{')
            for _ in range(r.randint(1, 3)):
                r.choice(simple)()
            f.st('}')
        del env[depth[0]:], arrays[depth[1]:]

    simple = [op_assign, op_assign, op_print, op_method, op_byref]
    ops = [op_lit, op_copy, op_assign, op_assign, op_assign, op_print, op_method, op_method, op_byref, op_byval,
           op_make, op_array, op_loop, op_block]
    op_lit()
    op_lit()
    for _ in range(r.randint(8, 22)):
        r.choice(ops)()
    op_print_all()


# ------------------------------------------------------------ objects
def objects(f):
    """A class with virtual methods, classes derived from it, references."""
    r, u = f.r, f.u
    nd = r.randint(1, 3)
    A = 'A' + u
    vm = ['va', 'vb', 'vc'][:r.randint(1, 3)]
    mod = 9973

    def expr(fields):
        """(source, function of the object) with i64 arithmetic that stays small"""
        a, b = r.choice(fields), r.choice(fields)
        k, m = r.randint(1, 9), r.randint(0, 99)
        return '(%s * %d`i64 + %s + %d`i64) %% %d`i64' % (a, k, b, m, mod), \
            lambda o: int(abs(v) % mod * (1 if v >= 0 else -1)) if (v := o[a] * k + o[b] + m) or True else 0
    classes = {}
    body = ['x: i64; y: i64 = %d`i64;' % r.randint(0, 9), 'func `init`(x: i64) { this.x = x; }']
    ydef = int(body[0].split('= ')[1].split('`')[0])
    base = {}
    for m in vm:
        s, fn = expr(['x', 'y'])
        body.append('virtual func %s(): i64 => %s' % (m, s))
        base[m] = fn
    k = r.randint(2, 5)
    body.append('func tmpl(): i64 => (%s) %% %d`i64' % (' + '.join('%s() * %d`i64' % (m, k + i) for i, m in enumerate(vm)), mod))

    def trem(a, b):
        return abs(a) % b * (1 if a >= 0 else -1)
    body.append('func add(d: i64) { x = (x + d) %% %d`i64; }' % mod)
    body.append('func sety(d: i64): i64 { y = d; return x + y; }')
    f.pre.append('class %s {\n  %s\n}' % (A, '\n  '.join(body)))
    classes[A] = dict(m=base, own=[], fields=['x', 'y'])
    for i in range(nd):
        nm = 'B%s_%d' % (u, i)
        own = ['p', 'q'][:r.randint(0, 2)]
        c = r.randint(1, 50)
        b = ['%s: i64;' % o for o in own]
        b.append('func `init`(x: i64%s) { super(x%s); %s }' % (''.join(', %s: i64' % o for o in own),
                                                             r.choice(['', ' + %d`i64' % c]),
                                                             ' '.join('this.%s = %s;' % (o, o) for o in own)))
        off = c if ' + ' in b[-1].split('super')[1].split(';')[0] else 0
        mm = dict(base)
        for m in vm:
            if r.random() < .6:
                s, fn = expr(['x', 'y'] + own)
                b.append('func %s(): i64 => %s' % (m, s))
                mm[m] = fn
        if own:
            b.append('func own(d: i64): i64 { add(d); %s = %s + d; return %s + x; }' % (own[0], own[0], own[-1]))
        f.pre.append('class %s : %s {\n  %s\n}' % (nm, A, '\n  '.join(b)))
        classes[nm] = dict(m=mm, own=own, fields=['x', 'y'] + own, off=off)
    H = 'H' + u
    f.pre.append('class %s { o: %s; n: i64 = 0`i64; func `init`(o: %s) { this.o = o; }\n'
                 '  func hit(d: i64): i64 { n += 1`i64; o.add(d); return o.%s(); }\n  func swap(z: %s) { o = z; } }'
                 % (H, A, A, vm[0], A))
    f.pre.append('func sh%s(o: %s) { println(o.x, " ", o.y, " ", %s, " ", o.tmpl()); }'
                 % (u, A, ', " ", '.join('o.%s()' % m for m in vm)))
    f.pre.append('func pk%s(c: bool, a: %s, b: %s): %s { if (c) return a; return b; }' % (u, A, A, A))
    f.pre.append('func id%s(a: %s): %s => a' % (u, A, A))
    objs, vars, holders = [], [], []

    def call(o, m):
        return classes[o['.c']]['m'][m](o)

    def tmpl(o):
        return trem(sum(call(o, m) * (k + i) for i, m in enumerate(vm)), mod)

    def shown(o):
        return ' '.join(str(x) for x in [o['x'], o['y']] + [call(o, m) for m in vm] + [tmpl(o)])

    def new():
        c = r.choice(list(classes))
        o = {'.c': c, 'y': ydef, 'x': r.randint(-50, 50)}
        args = [str(o['x']) + '`i64' if o['x'] >= 0 else '-%d`i64' % -o['x']]
        for w in classes[c]['own']:
            o[w] = r.randint(0, 50)
            args.append('%d`i64' % o[w])
        o['x'] += classes[c].get('off', 0)
        return '%s(%s)' % (c, ', '.join(args)), o

    def ref():
        """an expression that is a base reference"""
        w = r.random()
        n, t, box = r.choice(vars)
        if w < .6:
            return n, box[0]
        if w < .75:
            return 'id%s(%s)' % (u, n), box[0]
        n2, t2, b2 = r.choice(vars)
        s, v = f.lit('bool')
        return 'pk%s(%s, %s, %s)' % (u, s, n, n2), (box[0] if v else b2[0])

    def op_new():
        s, o = new()
        n = f.name('o')
        if r.random() < .6:
            f.st('var %s = %s;' % (n, s))
            vars.append((n, o['.c'], [o]))
        else:
            f.st('var %s: %s = %s;' % (n, A, s))
            vars.append((n, A, [o]))

    def op_alias():
        s, o = ref()
        n = f.name('o')
        f.st('var %s: %s = %s;' % (n, A, s))
        vars.append((n, A, [o]))

    def op_assign():
        c = [v for v in vars if v[1] == A]
        if c:
            n, t, box = r.choice(c)
            s, o = r.choice([ref, ref, new])()
            f.st('%s = %s;' % (n, s))
            box[0] = o

    def op_show():
        s, o = ref()
        f.st('sh%s(%s);' % (u, s))
        f.out.append(shown(o))

    def op_mut():
        n, t, box = r.choice(vars)
        o = box[0]
        d = r.randint(-30, 30)
        ds = '%d`i64' % d if d >= 0 else '-%d`i64' % -d
        w = r.random()
        if w < .4:
            f.st('%s.add(%s);' % (n, ds))
            o['x'] = trem(o['x'] + d, mod)
        elif w < .6:
            f.st('%s.x = %s;' % (n, ds))
            o['x'] = d
        elif w < .8 or t == A or not classes[t]['own']:
            o['y'] = d
            f.pr(('%s.sety(%s)' % (n, ds), str(o['x'] + d)))
        else:
            own = classes[t]['own']
            o['x'] = trem(o['x'] + d, mod)
            o[own[0]] += d
            f.pr(('%s.own(%s)' % (n, ds), str(o[own[-1]] + o['x'])))

    def op_call():
        n, t, box = r.choice(vars)
        if t == A:
            m = r.choice(vm)
            f.pr(('%s.%s()' % (n, m), str(call(box[0], m))), ('%s.tmpl()' % n, str(tmpl(box[0]))))
        else:
            f.pr((n + '.tmpl()', str(tmpl(box[0]))), (n + '.x', str(box[0]['x'])))

    def op_holder():
        if not holders or r.random() < .4:
            s, o = ref()
            n = f.name('h')
            f.st('var %s = %s(%s);' % (n, H, s))
            holders.append((n, [o, 0]))
            return
        n, h = r.choice(holders)
        w = r.random()
        if w < .4:
            d = r.randint(0, 20)
            h[1] += 1
            h[0]['x'] = trem(h[0]['x'] + d, mod)
            f.pr(('%s.hit(%d`i64)' % (n, d), str(call(h[0], vm[0]))))
            f.pr((n + '.n', str(h[1])))
        elif w < .7:
            s, o = r.choice([ref, new])()
            f.st('%s.%s;' % (n, r.choice(['swap(%s)', 'o = %s']) % s))
            h[0] = o
        else:
            f.pr((n + '.o.tmpl()', str(tmpl(h[0]))))

    def op_array():
        es = [ref() for _ in range(r.randint(2, 4))]
        n = f.name('l')
        z = f.name('z')
        f.st('var %s: %s = %s;' % (z, A, es[0][0]))
        f.st('var %s = [%s];' % (n, ', '.join([z] + [s for s, _ in es[1:]])))
        f.st('for (const e: %s) { sh%s(e); }' % (n, u))
        f.out.extend(shown(o) for _, o in es)
        i = r.randrange(len(es))
        es[i][1]['x'] = trem(es[i][1]['x'] + 3, mod)
        f.st('%s.[%d].add(3`i64);' % (n, i))
        f.pr(('%s.[%d].tmpl()' % (n, i), str(tmpl(es[i][1]))))

    op_new()
    op_new()
    for _ in range(r.randint(8, 20)):
        r.choice([op_new, op_alias, op_assign, op_show, op_show, op_mut, op_mut, op_call, op_holder, op_array])()
    for n, t, box in vars:
        f.st('sh%s(%s);' % (u, n))
        f.out.append(shown(box[0]))


# ------------------------------------------------------------ closures
def closures(f):
    """Scalars are captured by value when the closure is made, structs and
    objects by reference."""
    r, u = f.r, f.u
    K, P = 'K' + u, 'P' + u
    f.pre.append('class %s { n: i64; func `init`(n: i64) { this.n = n; } func bump(d: i64): i64 { n = (n + d) %% 9973`i64; return n; } }' % K)
    f.pre.append('struct %s { a: i64; b: i64 = 1`i64; }' % P)
    f.pre.append('func app%s(f: func(x: i64) -> i64, n: i64, k: i64): i64 { var z = n; for (const i: 0`i64..k) { z = f(z); } return z; }' % u)
    f.pre.append('func two%s(f: func(x: i64) -> i64, g: func(x: i64) -> i64, n: i64): i64 => f(g(n))' % u)
    f.pre.append('func gen%s[F](f: F, n: i64) { return f(n) + f(n + 1`i64); }' % u)
    f.pre.append('func cnt%s(f: func(x: i64) -> bool, n: i64): i64 { var z = 0`i64; for (const i: 0`i64..n) { if (f(i)) z += 1`i64; } return z; }' % u)
    scal, objs, structs, fns = {}, {}, {}, {}

    def rem(v):
        return abs(v) % 9973 * (1 if v >= 0 else -1)

    def i64(v):
        return '%d`i64' % v if v >= 0 else '-%d`i64' % -v
    for _ in range(2):
        v = r.randint(0, 40)
        n = f.name('n')
        f.st('var %s = %s;' % (n, i64(v)))
        scal[n] = v
    v = r.randint(0, 9)
    n = f.name('k')
    f.st('var %s = %s(%s);' % (n, K, i64(v)))
    objs[n] = [v]
    n = f.name('p')
    v = r.randint(0, 9)
    f.st('var %s = %s{a: %s};' % (n, P, i64(v)))
    structs[n] = [v, 1]

    def make():
        n = f.name('f')
        w = r.random()
        c = r.randint(-9, 9)
        if w < .35:
            s = r.choice(list(scal))
            val = scal[s]
            f.st('var %s = (x: i64): i64 => (x * %s + %s) %% 9973`i64;' % (n, i64(c), s))
            fns[n] = lambda x: rem(x * c + val)
        elif w < .55:
            p, s = r.choice(list(structs)), r.choice(list(scal))
            box, val = structs[p], scal[s]
            f.st('var %s = (x: i64): i64 => { %s.a = (%s.a + x) %% 9973`i64; return %s.a + %s.b + %s; };' % (n, p, p, p, p, s))

            def g(x):
                box[0] = rem(box[0] + x)
                return box[0] + box[1] + val
            fns[n] = g
        elif w < .75:
            k, s = r.choice(list(objs)), r.choice(list(scal))
            ob, val = objs[k], scal[s]
            f.st('var %s = (x: i64): i64 => { %s.bump(x); return %s.n + %s; };' % (n, k, k, s))

            def g(x):
                ob[0] = rem(ob[0] + x)
                return ob[0] + val
            fns[n] = g
        elif fns:
            h = r.choice(list(fns))
            hf = fns[h]
            f.st('var %s = (x: i64): i64 => %s(x + %s) %% 9973`i64;' % (n, h, i64(c)))
            fns[n] = lambda x: rem(hf(x + c))
        else:
            make()

    def op_call():
        n = r.choice(list(fns))
        x = r.randint(-20, 20)
        f.pr(('%s(%s)' % (n, i64(x)), str(fns[n](x))))

    def op_app():
        n = r.choice(list(fns))
        x, k = r.randint(0, 20), r.randint(0, 4)
        z = x
        for _ in range(k):
            z = fns[n](z)
        f.pr(('app%s(%s, %s, %s)' % (u, n, i64(x), i64(k)), str(z)))

    def op_two():
        a, b = r.choice(list(fns)), r.choice(list(fns))
        x = r.randint(0, 20)
        f.pr(('two%s(%s, %s, %s)' % (u, a, b, i64(x)), str(fns[a](fns[b](x)))))

    def op_gen():
        # the two calls inside have no defined order in C when both have effects
        s = r.choice(list(scal))
        v, c, x = scal[s], r.randint(1, 9), r.randint(0, 30)
        f.pr(('gen%s((x: i64): i64 => x * %s - %s, %s)' % (u, i64(c), s, i64(x)), str(x * c - v + (x + 1) * c - v)))

    def op_lit():
        s = r.choice(list(scal))
        x, k = r.randint(0, 9), r.randint(0, 3)
        z = x
        for _ in range(k):
            z = rem(z * 3 - scal[s])
        f.pr(('app%s((x: i64) => (x * 3`i64 - %s) %% 9973`i64, %s, %s)' % (u, s, i64(x), i64(k)), str(z)))

    def op_cnt():
        s = r.choice(list(scal))
        m, c = r.randint(1, 7), r.randint(0, 12)
        f.pr(('cnt%s((x: i64): bool => (x + %s) %% %s == 0`i64, %s)' % (u, s, i64(m), i64(c)),
              str(sum((i + scal[s]) % m == 0 for i in range(c)))))

    def op_mut():
        w = r.random()
        v = r.randint(0, 50)
        if w < .5:
            s = r.choice(list(scal))
            # keep cnt's operand non-negative
            f.st('%s = %s;' % (s, i64(v)))
            scal[s] = v
        elif w < .75:
            p = r.choice(list(structs))
            i = r.randint(0, 1)
            f.st('%s.%s = %s;' % (p, 'ab'[i], i64(v)))
            structs[p][i] = v
        else:
            k = r.choice(list(objs))
            f.st('%s.bump(%s);' % (k, i64(v)))
            objs[k][0] = rem(objs[k][0] + v)

    make()
    for _ in range(r.randint(8, 18)):
        r.choice([make, op_call, op_call, op_app, op_two, op_gen, op_lit, op_cnt, op_mut, op_mut])()
    for n in structs:
        f.pr((n + '.a', str(structs[n][0])), (n + '.b', str(structs[n][1])))
    for n in objs:
        f.pr((n + '.n', str(objs[n][0])))


# ------------------------------------------------------------ generics, overloads
def generics(f):
    r, u = f.r, f.u
    f.pre.append('func pick%s[T](c: bool, a: T, b: T): T { if (c) return a; return b; }' % u)
    f.pre.append('func mx%s[T](a: T, b: T): T { if (a < b) return b; return a; }' % u)
    f.pre.append('struct Bx%s[T] { v: T; n: i32 = 0`i32; func get(): T => v\n  func set(x: T): T { const o = v; v = x; n = n + 1`i32; return o; } }' % u)
    f.pre.append('struct Pr%s[A, B] { a: A; b: B; func swap() { return Pr%s[B, A]{a: b, b: a}; } }' % (u, u))
    f.pre.append('func mk%s[A, B](a: A, b: B) { return Pr%s[A, B]{a: a, b: b}; }' % (u, u))
    f.pre.append('func tp%s[A, B](a: A, b: B): (B, A) => (b, a)' % u)
    f.pre.append('class Cl%s[T] { v: T; func `init`(v: T) { this.v = v; } func ex(w: T): T { const o = v; v = w; return o; } }' % u)
    f.pre.append('func rp%s[T](n: i32, v: T): void { if (n > 0`i32) { println(n, " ", v); rp%s[T](n - 1`i32, v); } }' % (u, u))
    ov = r.sample(['i32', 'string', 'bool', 'f64', 'u8', 'i64'], r.randint(2, 5))
    for t in ov:
        f.pre.append('func ov%s(@unused x: %s): string => "<%s>"' % (u, t, t))
    f.pre.append('func ov%s(x: %s, @unused y: %s): string => ov%s(x)' % (u, ov[0], ov[1], u))
    df = [r.randint(0, 99) for _ in range(3)]
    f.pre.append('func df%s(a: i64, b: i64 = %d`i64, c: i64 = %d`i64): i64 => a * 10000`i64 + b * 100`i64 + c' % (u, df[0], df[1]))
    boxes, cls = [], []

    def op_pick():
        t = r.choice(SC)
        (s1, v1), (s2, v2), (sc, c) = f.lit(t), f.lit(t), f.lit('bool')
        f.pr(('pick%s%s(%s, %s, %s)' % (u, r.choice(['', '[%s]' % t]), sc, s1, s2), f.show(t, v1 if c else v2)))

    def op_max():
        t = r.choice(INT + ['f64'])
        (s1, v1), (s2, v2) = f.lit(t), f.lit(t)
        f.pr(('mx%s%s(%s, %s)' % (u, r.choice(['', '[%s]' % t]), s1, s2), f.show(t, max(v1, v2))))

    def op_box():
        if not boxes or r.random() < .4:
            t = r.choice(SC)
            s, v = f.lit(t)
            n = f.name('b')
            f.st('var %s = Bx%s[%s]{v: %s};' % (n, u, t, s))
            boxes.append((n, t, [v, 0]))
        else:
            n, t, b = r.choice(boxes)
            if r.random() < .3:
                n2 = f.name('b')
                f.st('var %s = %s;' % (n2, n))
                boxes.append((n2, t, list(b)))
                return
            s, v = f.lit(t)
            f.pr(('%s.set(%s)' % (n, s), f.show(t, b[0])))
            b[0] = v
            b[1] += 1
            f.pr((n + '.get()', f.show(t, v)), (n + '.n', str(b[1])))

    def op_pair():
        a, b = r.choice(SC), r.choice(SC)
        (s1, v1), (s2, v2) = f.lit(a), f.lit(b)
        n = f.name('q')
        if r.random() < .5:
            f.st('var %s = mk%s(%s, %s);' % (n, u, s1, s2))
            f.pr((n + '.swap().a', f.show(b, v2)), (n + '.b', f.show(b, v2)), (n + '.swap().swap().a', f.show(a, v1)))
        else:
            f.st('var %s = tp%s(%s, %s);' % (n, u, s1, s2))
            f.pr((n, '(%s, %s)' % (f.show(b, v2), f.show(a, v1))), (n + '.1', f.show(a, v1)))

    def op_cls():
        if not cls or r.random() < .4:
            t = r.choice(SC)
            s, v = f.lit(t)
            n = f.name('k')
            f.st('var %s = Cl%s[%s](%s);' % (n, u, t, s))
            cls.append((n, t, [v]))
        else:
            n, t, b = r.choice(cls)
            if r.random() < .4:
                n2 = f.name('k')
                f.st('var %s = %s;' % (n2, n))
                cls.append((n2, t, b))
                return
            s, v = f.lit(t)
            f.pr(('%s.ex(%s)' % (n, s), f.show(t, b[0])))
            b[0] = v
            f.pr((n + '.v', f.show(t, v)))

    def op_rep():
        t = r.choice(SC)
        s, v = f.lit(t)
        k = r.randint(0, 3)
        f.st('rp%s(%d`i32, %s);' % (u, k, s))
        f.out.extend('%d %s' % (i, f.show(t, v)) for i in range(k, 0, -1))

    def op_ov():
        t = r.choice(ov)
        n = f.name('x')
        f.st('var %s: %s = %s;' % (n, t, f.lit(t)[0]))
        f.pr(('ov%s(%s)' % (u, n), '<%s>' % t))
        if r.random() < .3:
            f.pr(('ov%s(%s, %s)' % (u, f.lit(ov[0])[0], f.lit(ov[1])[0]), '<%s>' % ov[0]))

    def op_df():
        a = [r.randint(0, 99) for _ in range(r.randint(1, 3))]
        v = a + df[len(a) - 1:2]
        f.pr(('df%s(%s)' % (u, ', '.join('%d`i64' % x for x in a)), str(v[0] * 10000 + v[1] * 100 + v[2])))

    for _ in range(r.randint(6, 14)):
        r.choice([op_pick, op_max, op_box, op_box, op_pair, op_cls, op_cls, op_rep, op_ov, op_df])()


# ------------------------------------------------------------ unions, optionals, enums
def unions(f):
    r, u = f.r, f.u
    P = 'Up' + u
    f.pre.append('struct %s { a: i32; b: string = "d"; }' % P)
    ms = r.sample(['i32', 'string', 'f64', 'bool', 'i64'], r.randint(1, 3)) + [P]
    r.shuffle(ms)
    U = 'U' + u
    f.pre.append('type %s = %s' % (U, ' | '.join(ms)))

    def mk(m):
        if m == P:
            a, b = r.randint(-99, 99), f.lit('string')
            return '%s{a: %s, b: %s}' % (P, f.lit('i32', a)[0], b[0]), [a, b[1]]
        return f.lit(m)

    def sh(m, v):
        return '%s{a: %d, b: "%s"}' % (P, v[0], v[1]) if m == P else f.show(m, v)
    order = list(ms)
    r.shuffle(order)
    els = r.random() < .4 and len(order) > 2
    cases = ' '.join('case %s as %sx => { println("%s:", x); return %d`i32; }' % (m, '&' if m == P and r.random() < .5 else '', m, i)
                     for i, m in enumerate(order[:-1] if els else order))
    if els:
        cases += ' else => println("other");'
    f.pre.append('func cl%s(z: %s): i32 { match (z) { %s } return -1`i32; }' % (u, U, cases))
    fl = [mk(m) for m in ms]
    f.pre.append('func mk%s(n: i32): %s { %s }' % (u, U, ' '.join(
        ('if (n == %d`i32) ' % i if i < len(ms) - 1 else '') + 'return %s;' % s for i, (s, _) in enumerate(fl))))
    vars, opts = [], []

    def classify(src, m, v):
        i = order.index(m)
        if els and i == len(order) - 1:
            f.out.append('other')
            i = -1
        else:
            f.out.append('%s:%s' % (m, sh(m, v)))
        n = f.name('c')
        f.st('var %s = cl%s(%s);' % (n, u, src))
        f.pr((n, str(i)))

    def op_new():
        m = r.choice(ms)
        s, v = mk(m)
        n = f.name('u')
        f.st('var %s: %s = %s;' % (n, U, s))
        vars.append((n, [m, v]))

    def op_assign():
        n, b = r.choice(vars)
        if r.random() < .3 and len(vars) > 1:
            n2, b2 = r.choice([x for x in vars if x[0] != n])
            f.st('%s = %s;' % (n, n2))
            b[:] = [b2[0], copy.deepcopy(b2[1])]
        elif r.random() < .4:
            i = r.randrange(len(ms))
            f.st('%s = mk%s(%d`i32);' % (n, u, i))
            b[:] = [ms[i], copy.deepcopy(fl[i][1])]
        else:
            m = r.choice(ms)
            s, v = mk(m)
            f.st('%s = %s;' % (n, s))
            b[:] = [m, v]

    def op_match():
        n, b = r.choice(vars)
        classify(n, *b)

    def op_call():
        i = r.randrange(len(ms))
        classify('mk%s(%d`i32)' % (u, i), ms[i], fl[i][1])

    def op_mut():
        n, b = r.choice(vars)
        v = r.randint(-99, 99)
        f.st('match (%s) { case %s as &x => { x.a = %s; println("changed"); } else => println("kept"); }' % (n, P, f.lit('i32', v)[0]))
        if b[0] == P:
            b[1][0] = v
            f.out.append('changed')
        else:
            f.out.append('kept')

    def op_copy():
        n, b = r.choice(vars)
        n2 = f.name('u')
        f.st('var %s = %s;' % (n2, n))
        vars.append((n2, [b[0], copy.deepcopy(b[1])]))

    of = f.name('op%s_' % u)
    f.pre.append('func %s(n: i32): i32? { if (n > 3`i32) return n * 2`i32; return null; }' % of)

    def op_opt():
        w = r.random()
        if not opts or w < .2:
            t = r.choice(['i32', 'string', 'f64', 'i64', P])
            n = f.name('z')
            if r.random() < .5:
                f.st('var %s: %s? = null;' % (n, t))
                opts.append((n, t, [None]))
            else:
                s, v = mk(t)
                f.st('var %s: %s? = %s;' % (n, t, s))
                opts.append((n, t, [v]))
            return
        n, t, b = r.choice(opts)
        if w < .4:
            s, v = mk(t)
            f.st('%s = %s;' % (n, s))
            b[0] = v
        elif w < .5:
            f.st('%s = null;' % n)
            b[0] = None
        elif w < .6 and t == 'i32':
            k = r.randint(0, 7)
            f.st('%s = %s(%d`i32);' % (n, of, k))
            b[0] = k * 2 if k > 3 else None
        elif w < .75:
            f.pr(('!%s' % n, 'true' if b[0] is None else 'false'))
        elif w < .85:
            k = r.randint(0, 7)
            y = f.name('y')
            f.st('if (var %s = %s(%d`i32)) println("some ", *%s); else println("none");' % (y, of, k, y))
            f.out.append('some %d' % (k * 2) if k > 3 else 'none')
        else:
            f.st('if (%s) println("got ", *%s); else println("nothing");' % (n, n))
            f.out.append('nothing' if b[0] is None else 'got ' + sh(t, b[0]))

    En = 'En' + u
    vals, nxt = [], 0
    for i in range(r.randint(2, 5)):
        if r.random() < .4:
            nxt += r.randint(0, 9)
        vals.append(nxt)
        nxt += 1
    decl, cur = [], 0
    for i, v in enumerate(vals):
        decl.append('M%d%s' % (i, ' = %d' % v if v != cur or r.random() < .2 else ''))
        cur = v + 1
    f.pre.append('enum %s { %s }' % (En, ', '.join(decl)))
    idx = list(range(len(vals)))
    r.shuffle(idx)
    known = idx[:r.randint(1, len(idx))]
    f.pre.append('func sw%s(e: %s): i32 { switch (e) { %s default => return -7`i32; } return 0`i32; }' % (
        u, En, ' '.join('case %s.M%d => return %d`i32;' % (En, i, i * 11) for i in known)))

    def op_enum():
        i, j = r.randrange(len(vals)), r.randrange(len(vals))
        n = f.name('e')
        f.st('var %s = %s.M%d;' % (n, En, i))
        f.pr((n, '%s.M%d' % (En, i)), ('%s as i32' % n, str(vals[i])), ('sw%s(%s)' % (u, n), str(i * 11 if i in known else -7)),
             ('%s == %s.M%d' % (n, En, j), 'true' if i == j else 'false'))

    op_new()
    for _ in range(r.randint(8, 18)):
        r.choice([op_new, op_assign, op_assign, op_match, op_match, op_call, op_mut, op_copy, op_opt, op_opt, op_opt, op_enum])()
    for n, b in vars:
        classify(n, *b)


# ------------------------------------------------------------ operators, iteration
def operators(f):
    r, u = f.r, f.u
    V = 'V' + u
    k = [r.randint(1, 5) for _ in range(4)]
    f.pre.append('''struct %(V)s { x: i64; y: i64;
  func `+`(o: &const This): This { return This{x: x + o.x, y: y + o.y}; }
  func `-`(o: &const This): This { return This{x: x - o.x, y: y - o.y}; }
  func `*`(k: i64): This { return This{x: x * k, y: y * k}; }
  func `==`(o: &const This): bool => x == o.x && y == o.y
  func `<`(o: &const This): bool => (x + y * %(a)d`i64) < (o.x + o.y * %(a)d`i64)
  func `[]`(i: i32): i64 { if (i == 0`i32) return x; return y; }
  func `[]=`(i: i32, v: i64) { if (i == 0`i32) x = v; else y = v; }
  func `()`(k: i64): i64 => x * k + y * %(b)d`i64
  func `..`() { var i = 0`i64; var s = x; var n = (y < 5`i64) ? 4`i64 : 2`i64; return (): Optional[i64] => { if (i < n) { i = i + 1`i64; return Some[i64](s * i); } return None[i64](); }; }
}''' % {'V': V, 'a': k[0], 'b': k[1]})
    vars = []

    def i64(v):
        return '%d`i64' % v if v >= 0 else '-%d`i64' % -v

    def val():
        return [r.randint(-20, 20), r.randint(-20, 20)]

    def new():
        v = val()
        n = f.name('v')
        f.st('var %s = %s{x: %s, y: %s};' % (n, V, i64(v[0]), i64(v[1])))
        vars.append((n, v))

    def sh(v):
        return '%s{x: %d, y: %d}' % (V, v[0], v[1])

    def expr(d):
        if d == 0 or r.random() < .2:
            n, v = r.choice(vars)
            return n, list(v)
        w = r.random()
        s1, a = expr(d - 1)
        if w < .35:
            s2, b = r.choice(vars)
            return '(%s + %s)' % (s1, s2), [a[0] + b[0], a[1] + b[1]]
        if w < .7:
            s2, b = r.choice(vars)
            return '(%s - %s)' % (s1, s2), [a[0] - b[0], a[1] - b[1]]
        c = r.randint(-3, 3)
        return '(%s * %s)' % (s1, i64(c)), [a[0] * c, a[1] * c]

    def op_expr():
        s, v = expr(3)
        n = f.name('v')
        f.st('var %s = %s;' % (n, s))
        vars.append((n, v))
        f.pr((n, sh(v)))

    def op_cmp():
        (s1, a), (s2, b) = r.choice(vars), r.choice(vars)
        f.pr(('%s == %s' % (s1, s2), 'true' if a == b else 'false'),
             ('%s < %s' % (s1, s2), 'true' if a[0] + a[1] * k[0] < b[0] + b[1] * k[0] else 'false'))

    def op_idx():
        n, v = r.choice(vars)
        i = r.randint(0, 1)
        if r.random() < .5:
            x = r.randint(-20, 20)
            f.st('%s.[%d] = %s;' % (n, i, i64(x)))
            v[i] = x
        f.pr(('%s.[%d]' % (n, i), str(v[i])), ('%s(%s)' % (n, i64(3)), str(v[0] * 3 + v[1] * k[1])))

    def op_iter():
        n, v = r.choice(vars)
        m = 4 if v[1] < 5 else 2
        b = r.randint(1, 5)
        w = r.random()
        e = f.name('e')
        vs = [v[0] * (i + 1) for i in range(m)]
        if w < .4:
            f.st('for (const %s: %s) { println(%s); }' % (e, n, e))
            f.out.extend(str(x) for x in vs)
        elif w < .7:
            t = f.name('t')
            f.st('var %s = 0`i64; for (const %s: %s) { %s += %s; if (%s > %s) break; } println(%s);' % (t, e, n, t, e, t, i64(b), t))
            s = 0
            for x in vs:
                s += x
                if s > b:
                    break
            f.out.append(str(s))
        else:
            t = f.name('t')
            f.st('var %s = 0`i64; for (const %s: %s) { if (%s %% 2`i64 == 0`i64) continue; %s += %s; } println(%s);' % (t, e, n, e, t, e, t))
            f.out.append(str(sum(x for x in vs if x % 2)))

    def op_copy():
        n, v = r.choice(vars)
        m = f.name('v')
        f.st('var %s = %s;' % (m, n))
        vars.append((m, list(v)))

    def op_asg():
        n, v = r.choice(vars)
        s, x = expr(2)
        f.st('%s = %s;' % (n, s))
        v[:] = x

    new()
    new()
    for _ in range(r.randint(6, 14)):
        r.choice([new, op_expr, op_expr, op_cmp, op_idx, op_idx, op_iter, op_copy, op_asg])()
    for n, v in vars:
        f.pr((n, sh(v)))


# ------------------------------------------------------------ loops
class Ch(int):
    # a character, an integer that prints as its letter
    def __new__(cls, c):
        return int.__new__(cls, ord(c))

    def __str__(self):
        return chr(self)


def loops(f):
    r, u = f.r, f.u
    its = {}

    def iterator(k):
        # an iterator of k-tuples: element j of round i is i * (j + 2) + c[j]
        if k in its:
            return its[k]
        n = 'It%d%s' % (k, u)
        c = [r.randint(-9, 9) for _ in range(k)]
        ts = [r.choice(['i64', 'i32', 'i16']) for _ in range(k)]
        tt = '(%s)' % ', '.join(ts)
        el = ', '.join('(i * %d`i64 + (%d`i64)) as %s' % (j + 2, c[j], ts[j]) if c[j] >= 0 else
                       '(i * %d`i64 - %d`i64) as %s' % (j + 2, -c[j], ts[j]) for j in range(k))
        f.pre.append('''struct %s { n: i64;
  func `..`() { var i = 0`i64; var n = this.n; return (): Optional[%s] => { if (i < n) { i = i + 1`i64; return Some((%s)); } return None[%s](); }; } }'''
                     % (n, tt, el, tt))
        its[k] = (n, c)
        return its[k]

    def source():
        # (range expression, list of bindable tuples, number of names)
        w = r.random()
        if w < .25:
            a = r.randint(-4, 4)
            b = r.randint(a - 1, a + 6)
            vals = [(x,) for x in range(a, b)]
            if r.random() < .4:
                n = f.name('hi')
                f.st('var %s = %s%d`i64;' % (n, '-' if b < 0 else '', abs(b)))
                return '%d..%s' % (a, n), vals, 1
            return '%d..%d' % (a, b), vals, 1
        if w < .45:
            a, st = r.randint(-5, 9), r.choice([1, 2, 3, 5, -1, -2, -4])
            b = a + st * r.randint(0, 5) + (r.randint(0, abs(st) - 1) if st > 0 else -r.randint(0, abs(st) - 1))
            return 'range(%d, %d, %d)' % (a, b, st), [(x,) for x in range(a, b, st)], 1
        if w < .5:
            v = ''.join(r.choice(LET) for _ in range(r.randint(0, 4)))
            n = f.name('a')
            f.st('var %s = "%s";' % (n, v))
            return n, [(Ch(x), i) for i, x in enumerate(v)], 2
        if w < .65:
            v = [r.randint(-50, 50) for _ in range(r.randint(1, 5))]
            n = f.name('a')
            f.st('var %s = [%s];' % (n, ', '.join(f.lit('i32', x)[0] for x in v)))
            return n, [(x, i) for i, x in enumerate(v)], 2
        k = r.choice([2, 3, 4])
        nm, c = iterator(k)
        m = r.randint(0, 4)
        n = f.name('it')
        f.st('var %s = %s{n: %d};' % (n, nm, m))
        return n, [tuple(i * (j + 2) + c[j] for j in range(k)) for i in range(1, m + 1)], k

    def bind(k, pairs):
        # names for a prefix of the elements, some of them ignored
        q = r.randint(1, k)
        if k > 2 and q == 1:
            q = 2          # one name binds the whole tuple
        ns = [f.name('e') for _ in range(q)]
        if q > 1:
            for j in range(q):
                if r.random() < .35:
                    ns[j] = '_'
            if all(n == '_' for n in ns):
                ns[r.randrange(q)] = f.name('e')
        if k == 2 and q == 1 and pairs:
            ns.append('_')
        return ns

    def loop(d, outer, ind):
        src, vals, k = source()
        ns = bind(k, src[0] == 'i')
        live = [(n, j) for j, n in enumerate(ns) if n != '_']
        pad = '  ' * ind
        f.st(pad + 'for (const %s: %s) {' % (', '.join(ns), src))
        steps = []
        w = r.random()
        n0, j0 = live[0]
        t = r.randint(-3, 12)
        if w < .25:
            if isinstance(vals[0][j0] if vals else 0, Ch) or src[0] == 'a' and not vals:
                n0 = '(%s as i64)' % n0
            f.st(pad + '  if (%s > %d) break;' % (n0, t) if t >= 0 else pad + '  if (%s > (-%d)) break;' % (n0, -t))
            steps.append(('break', j0, t))
        elif w < .5:
            if isinstance(vals[0][j0] if vals else 0, Ch) or src[0] == 'a' and not vals:
                n0 = '(%s as i64)' % n0
            f.st(pad + '  if (%s %% 2 == 0) continue;' % n0)
            steps.append(('cont', j0, 0))
        acc = r.random() < .5
        if acc:
            tv = outer[-1]
            f.st(pad + '  %s = %s + (%s as i64);' % (tv, tv, live[-1][0]))
        f.st(pad + '  println(%s);' % ', ":", '.join(n for n, _ in live))
        inner = None
        if d > 0 and r.random() < .5:
            mark = len(f.body)
            inner = loop(d - 1, outer, ind + 1)
        f.st(pad + '}')
        return vals, live, steps, acc, inner

    def run(lp, m):
        vals, live, steps, acc, inner = lp
        for v in vals:
            if steps:
                kind, j, t = steps[0]
                if kind == 'break' and v[j] > t:
                    break
                if kind == 'cont' and v[j] % 2 == 0:
                    continue
            if acc:
                m[0] += v[live[-1][1]]
            f.out.append(':'.join(str(v[j]) for _, j in live))
            if inner:
                run(inner, m)

    for _ in range(r.randint(2, 5)):
        tv = f.name('sum')
        f.st('var %s = 0`i64;' % tv)
        lp = loop(r.choice([0, 0, 1]), [tv], 0)
        m = [0]
        run(lp, m)
        f.pr((tv, str(m[0])))
    # while with every jump
    n, c, b = f.name('w'), r.randint(2, 5), r.randint(3, 9)
    f.st('var %s = 0; while (true) { %s++; if (%s %% %d == 0) continue; if (%s > %d) break; println(%s); }' % (n, n, n, c, n, b, n))
    x = 0
    while True:
        x += 1
        if x % c == 0:
            continue
        if x > b:
            break
        f.out.append(str(x))


ALL = [value_world, loops, value_world, objects, objects, closures, generics, unions, operators]


def build(r, makers=None, n=None):
    """(text, expected lines)"""
    makers = makers or ALL
    pre, calls, fns, out = [], [], [], []
    for i in range(n or r.randint(1, 3)):
        f = Frag(r, 'xyzuvwst'[i])
        r.choice(makers)(f)
        times = r.choice([1, 1, 1, 2])
        w = r.random()
        pre += f.pre
        fns.append('func part_%s() {\n%s\n}' % (f.u, '\n'.join(f.body)))
        call = 'part_%s();' % f.u
        if times == 2:
            call = r.choice(['for (const i: 0..2) { %s }' % call, call + ' ' + call]) if w < .7 else \
                'var n%s = 0; while (n%s < 2) { n%s++; %s }' % (f.u, f.u, f.u, call)
        calls.append('  ' + call)
        out += f.out * times
    return '\n'.join(pre + fns) + '\nfunc main() {\n%s\n}\n' % '\n'.join(calls), out
