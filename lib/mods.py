"""Random programs of several modules and what they print.

A program is an acyclic graph of modules in several folders.  Their
declarations take names from one small pool, so that the same name means
different things in different modules, names joined by the compiler
(module + owner + member) could clash, and some of the names are ordinary in
cxy but not in C.  Every declaration has a meaning here (a Python function over
the state of the module variables), so that the lines the program has to print
are known: each access has to reach the declaration of the module that the
import names, there is one instance of each module, and module variables are
initialised once."""

NAMES = ['f', 'g', 'main', 'get', 'S', 'K', 'val', 'tmp', 'S_get', 'a_f', 'linux', 'double', 'register', 'short', 'unsigned',
         'size_t', 'int32_t', 'printf', 'exit', 'strlen', 'malloc', 'main2', 'init', 'N', 'x1', 'errno', 'stdin', 'typedef',
         'String_get', 'builtins_f', 'inline', 'goto', 'K_init', 'E_A', 'abs', 'free', 'T', 'E', '_f', 'f1', 'f_1', 'memcpy',
         'assert', 'volatile', 'B', 'time', 'y0', 'j1', 'gamma', 'signal', 'read', 'write', 'log', 'NULL', 'EOF']
MODNAMES = ['a', 'b', 'a_b', 'ab', 'u', 'util', 'a_f', 'S', 'u_S', 'int', 'io2', 'stdio', 'linux', 'K', 'm0', 'm1', 'x', 'xy',
            'string_', 'core', 'static', 'main_', 'std', 'f']
LOCALS = ['int', 'long', 'linux', 'register', 'v', 't', '_f', 'a_f', 'signed', 'errno', 'size_t', 'stdin', 'tmp', 'tag', 'data', 'volatile', 'w',
          'memcpy', 'uint64_t', 'stderr', 'unix', 'assert', 'NULL', 'goto', 'case_', '_1', 'bool_', 'a_S', 'sizeof', 'restrict', 'f1', 'E_A']
DIRS = ['', '', 'lib/', 'lib/x/', 'y/']
M = 997


# public declarations of the builtins
BUILTIN = {'malloc', 'free', 'memcpy', 'strlen', 'printf', 'exit', 'abs', 'assert', 'read', 'write', 'log', 'time', 'signal', 'stdin', 'errno',
           'init', 'get', 'T', 'S', 'K'}


class Item:
    def __init__(self, mod, kind, name, pub, **kw):
        self.mod, self.kind, self.name, self.pub = mod, kind, name, pub
        self.__dict__.update(kw)


class Mod:
    def __init__(self, i, name, path):
        self.i, self.name, self.path = i, name, path
        self.imports = []       # (text, line filled in later)
        self.items = []
        self.lines = []
        self.vis = []           # (accessor, item)
        self.used = set()
        self.via = {}           # module -> alias


class Program:
    def __init__(self, r, nmods=None):
        self.r = r
        n = nmods or r.choice([2, 3, 3, 4, 4, 5, 6])
        names = r.sample(MODNAMES, n)
        self.mods = []
        self.deps = [set() for _ in range(n + 1)]
        for i in range(n):
            m = Mod(i, names[i], r.choice(DIRS) + 'f%d.cxy' % i)
            self.mods.append(m)
            self.fill(m)
        main = Mod(n, '', 'a.cxy')
        main.used.add('main')
        self.mods.append(main)
        self.fill(main)

    # -- imports
    def rel(self, frm, to):
        d = frm.path.rsplit('/', 1)[0].split('/') if '/' in frm.path else []
        return './' + '../' * len(d) + to.path

    def own(self, m, pool=None):
        r = self.r
        while True:
            n = r.choice(pool or NAMES)
            if n not in m.used:
                m.used.add(n)
                return n

    def do_imports(self, m):
        r = self.r
        lower = self.mods[:m.i]
        if not lower:
            return
        pick = lower[:] if m.name == '' and r.random() < .5 else r.sample(lower, r.randint(1, min(3, len(lower))))
        if lower[-1] not in pick and r.random() < .8:
            pick.append(lower[-1])
        r.shuffle(pick)
        for o in pick:
            pubs = [x for x in o.items if x.pub]
            p = self.rel(m, o)
            how = r.choice(['alias', 'plain', 'one', 'some', 'both'])
            self.deps[m.i] |= {o.i} | self.deps[o.i]
            if how == 'plain' and o.name in m.used:
                how = 'alias'
            if how in ('one', 'some', 'both') and not pubs:
                how = 'alias'
            if how in ('alias', 'both'):
                al = self.own(m, ['q', 'mod', 'z9', 'lib', 'p', 'short', 'aa', 'f', 'S', 'union_', 'x'] + NAMES)
                m.imports.append('import "%s" as %s' % (p, al))
                m.via[o.i] = al
                m.vis += [(al + '.' + x.name, x) for x in pubs]
            if how == 'plain':
                m.used.add(o.name)
                m.imports.append('import "%s"' % p)
                m.via[o.i] = o.name
                m.vis += [(o.name + '.' + x.name, x) for x in pubs]
            if how in ('one', 'some', 'both'):
                ents = r.sample(pubs, 1 if how == 'one' else r.randint(1, min(5, len(pubs))))
                out = []
                for x in ents:
                    if x.name not in m.used and r.random() < .6:
                        m.used.add(x.name)
                        out.append(x.name)
                        m.vis.append((x.name, x))
                    else:
                        al = self.own(m)
                        out.append('%s as %s' % (x.name, al))
                        m.vis.append((al, x))
                if how == 'one':
                    m.imports.append('import %s from "%s"' % (out[0], p))
                else:
                    m.imports.append('import { %s } from "%s"' % (', '.join(out), p))

    # -- expressions without side effects: (text, meaning)
    def pick(self, m, kinds):
        c = [v for v in m.vis if v[1].kind in kinds]
        return self.r.choice(c) if c else None

    def expr(self, m, depth, p=None, gp=None):
        """p: text of an i32 in scope and its meaning is argument 'k' of the closure"""
        r = self.r
        opts = ['lit', 'lit', 'par'] if p else ['lit']
        if depth > 0:
            opts += ['op', 'op', 'call', 'call', 'call', 'const', 'var', 'st', 'st', 'kl', 'gen', 'enum', 'box', 'alias', 'over']
        while True:
            o = r.choice(opts)
            if o == 'lit':
                n = r.randint(0, 90)
                return '<i32>%d' % n, lambda s, k, n=n: n
            if o == 'par':
                return p, lambda s, k: k
            if o == 'op':
                a, fa = self.expr(m, depth - 1, p)
                b, fb = self.expr(m, depth - 1, p)
                op = r.choice('+-*')
                f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[op]
                # what is computed stays small: % M everywhere, C's sign
                return '((%s %s %s) %% <i32>%d)' % (a, op, b, M), lambda s, k, f=f, fa=fa, fb=fb: crem(f(fa(s, k), fb(s, k)))
            want = {'call': ['func'], 'const': ['const'], 'var': ['var'], 'st': ['struct'], 'kl': ['class'], 'gen': ['gen'],
                    'enum': ['enum'], 'box': ['box'], 'alias': ['alias'], 'over': ['over']}[o]
            got = self.pick(m, want)
            if not got:
                continue
            acc, it = got
            if o == 'const':
                return acc, lambda s, k, v=it.value: v
            if o == 'enum':
                j = r.randrange(len(it.opts))
                return '(<i32>%s.%s)' % (acc, it.opts[j][0]), lambda s, k, v=it.opts[j][1]: v
            if o == 'var':
                return acc, lambda s, k, v=it: s[v]
            a, fa = self.expr(m, depth - 1, p)
            if o == 'call':
                return '%s(%s)' % (acc, a), lambda s, k, fa=fa, it=it: it.fn(s, fa(s, k))
            if o == 'over':
                if r.random() < .5:
                    return '%s("%s")' % (acc, 'x' * r.randint(0, 3)), lambda s, k, it=it: it.other
                return '%s(%s)' % (acc, a), lambda s, k, fa=fa, it=it: it.fn(s, fa(s, k))
            if o in ('st', 'kl', 'alias'):
                b, fb = self.expr(m, depth - 1, p)
                obj, fobj = self.obj(acc, it, a, fa)
                t = it.target if o == 'alias' else it
                return '%s.%s(%s)' % (obj, t.method, b), lambda s, k, t=t, fobj=fobj, fb=fb: t.call(s, fobj(s, k), fb(s, k))
            if o == 'gen':
                return '%s(%s, %s)' % (acc, r.choice(['true', '"q"', "'c'", '<i64>3', '4.5']), a), \
                    lambda s, k, fa=fa, it=it: it.fn(s, fa(s, k))
            if o == 'box':
                got = self.pick(m, ['struct', 'class', 'alias'])
                if not got:
                    continue
                acc2, it2 = got
                b, fb = self.expr(m, depth - 1, p)
                obj, fobj = self.obj(acc2, it2, a, fa)
                t2 = it2.target if it2.kind == 'alias' else it2
                if t2.method != 'get':
                    continue
                return '%s[%s](%s).show(%s)' % (acc, acc2, obj, b), \
                    lambda s, k, t2=t2, fobj=fobj, fb=fb, it=it: crem(t2.call(s, fobj(s, k), fb(s, k)) + it.add)

    def obj(self, acc, it, a, fa):
        if it.kind == 'alias':
            it = it.target
        if it.kind == 'struct':
            return '(%s{%s: %s})' % (acc, it.field, a), lambda s, k, fa=fa: fa(s, k)
        return '%s(%s)' % (acc, a), lambda s, k, fa=fa: fa(s, k)

    # -- declarations
    def fill(self, m):
        r = self.r
        ismain = m.name == ''
        self.do_imports(m)
        body = []
        kinds = ['const', 'var', 'func', 'func', 'func', 'func', 'over', 'struct', 'struct', 'class', 'derived', 'gen', 'box', 'enum', 'exc',
                 'alias', 'effect', 'effect', 'raise', 'raise']
        n = r.randint(3, 6) if ismain else r.randint(5, 11)
        for _ in range(n):
            k = r.choice(kinds)
            pub = r.random() < .75
            pre = 'pub ' if pub else ''
            if k == 'const':
                v = r.randint(-50, 50)
                it = Item(m, 'const', self.own(m), pub, value=v)
                body.append('%sconst %s: i32 = %d;' % (pre, it.name, v))
            elif k == 'var':
                v = r.randint(-50, 50)
                it = Item(m, 'var', self.own(m), pub, init=v)
                body.append('%svar %s: i32 = %d;' % (pre, it.name, v))
            elif k == 'func':
                p = r.choice(LOCALS + ['k', 'k'])
                if p in m.used:
                    p = 'k'
                e, f = self.expr(m, 3, p)
                it = Item(m, 'func', self.own(m), pub, fn=f)
                if p in m.used or r.random() < .3:
                    loc = r.choice([x for x in LOCALS if x not in m.used and x != p] or ['w9'])
                    body.append('%sfunc %s(%s: i32): i32 { const %s: i32 = %s; return %s }' % (pre, it.name, p, loc, e, loc))
                else:
                    body.append('%sfunc %s(%s: i32): i32 => %s' % (pre, it.name, p, e))
            elif k == 'over':
                e, f = self.expr(m, 2, 'k')
                o = r.randint(0, 90)
                it = Item(m, 'over', self.own(m), pub, fn=f, other=o)
                body.append('%sfunc %s(k: i32): i32 => %s' % (pre, it.name, e))
                body.append('%sfunc %s(_s: string): i32 => <i32>%d' % (pre, it.name, o))
            elif k in ('struct', 'class'):
                name = self.own(m)
                fld = r.choice([x for x in ['a', 'int', 'tag', 'double', 'linux', 'size_t', 'x', 'register'] if x not in m.used] or ['fld0'])
                e, f = self.expr(m, 2, 'k')
                met = r.choice(['get', 'get', 'f', 'init2', 'short'])
                while met in m.used or met == fld or met == name:
                    met += '0'
                it = Item(m, k, name, pub, field=fld, method=met)
                it.call = lambda s, x, kk, f=f: crem(f(s, kk) + x)
                it.f = f
                g = 'func %s(k: i32): i32 => (%s + this.%s) %% <i32>%d' % (met, e, fld, M)
                if k == 'struct':
                    body.append('%sstruct %s { %s: i32; %s; }' % (pre, it.name, fld, g))
                else:
                    body.append('%sclass %s { %s: i32; func `init`(v0: i32) { this.%s = v0; } virtual %s; }'
                                % (pre, it.name, fld, fld, g))
            elif k == 'derived':
                got = self.pick(m, ['class'])
                if not got or hasattr(got[1], 'base'):
                    continue
                acc, base = got
                add = r.randint(1, 9)
                name = self.own(m)
                if name in (base.field, base.method):
                    continue
                it = Item(m, 'class', name, pub, field=base.field, method=base.method, base=base)
                it.call = lambda s, x, kk, add=add: crem(x + kk * add)
                body.append('%sclass %s: %s { func `init`(v0: i32) { super(v0); } func %s(k: i32): i32 => '
                            '(this.%s + k * <i32>%d) %% <i32>%d; }' % (pre, it.name, acc, base.method, base.field, add, M))
                # called through the base
                it2 = Item(m, 'func', self.own(m), pub, fn=lambda s, kk, it=it: it.call(s, kk, kk))
                body.append('%sfunc %s(k: i32): i32 { var o: %s = %s(k); return o.%s(k) }' % (pre, it2.name, acc, it.name, it.method))
                m.items.append(it2)
                m.vis.append((it2.name, it2))
            elif k == 'gen':
                e, f = self.expr(m, 2, 'k')
                it = Item(m, 'gen', self.own(m), pub, fn=f)
                body.append('%sfunc %s[TT](_t: TT, k: i32): i32 => %s' % (pre, it.name, e))
            elif k == 'box':
                it = Item(m, 'box', self.own(m), pub, add=r.randint(0, 90))
                body.append('%sstruct %s[TT] { t: TT; func `init`(t: TT) { this.t = t; } func show(k: i32): i32 => (t.get(k) + <i32>%d) %% <i32>%d; }'
                            % (pre, it.name, it.add, M))
            elif k == 'enum':
                v = r.randint(0, 60)
                opts = []
                for o in r.sample(['A', 'B', 'int', 'get', 'EOF', 'X'], r.randint(1, 3)):
                    opts.append((o, v))
                    v += r.randint(1, 5)
                it = Item(m, 'enum', self.own(m), pub, opts=opts)
                body.append('%senum %s { %s }' % (pre, it.name, ', '.join('%s = %d' % o for o in opts)))
            elif k == 'exc':
                it = Item(m, 'exc', self.own(m), pub)
                body.append('%sexception %s(_k: i32) => "%s in %s"' % (pre, it.name, it.name, m.path))
            elif k == 'alias':
                got = self.pick(m, ['struct', 'class'])
                if not got:
                    continue
                it = Item(m, 'alias', self.own(m), pub, target=got[1])
                body.append('%stype %s = %s' % (pre, it.name, got[0]))
            elif k == 'effect':
                got = self.pick(m, ['var'])
                if not got:
                    continue
                acc, v = got
                e, f = self.expr(m, 2, 'k')
                e2, f2 = self.expr(m, 1, 'k')
                it = Item(m, 'effect', self.own(m), pub)

                def fn(s, kk, v=v, f=f, f2=f2):
                    s[v] = crem(s[v] + f(s, kk))
                    return f2(s, kk)
                it.fn = fn
                body.append('%sfunc %s(k: i32): i32 { %s = (%s + %s) %% <i32>%d; return %s }' % (pre, it.name, acc, acc, e, M, e2))
            elif k == 'raise':
                got = self.pick(m, ['exc'])
                if not got:
                    continue
                acc, x = got
                e, f = self.expr(m, 2, 'k')
                d = r.randint(2, 4)
                it = Item(m, 'raise', self.own(m), pub, exc=x)
                it.fn = lambda s, kk, d=d, f=f: None if kk % d == 0 else f(s, kk)
                body.append('%sfunc %s(k: i32): !i32 { if (k %% <i32>%d == <i32>0) raise %s(k); return %s }' % (pre, it.name, d, acc, e))
            m.items.append(it)
            m.vis.append((it.name, it))
        m.body = body

    def main(self, steps=None):
        """(lines of main, printed lines)"""
        r = self.r
        m = self.mods[-1]
        s = {x: x.init for o in self.mods for x in o.items if x.kind == 'var'}
        out, exp = [], []
        fixed = len(m.used)
        for i in range(steps or r.randint(8, 16)):
            name = r.choice(LOCALS) if r.random() < .3 else ''
            if not name or name in m.used:
                name = 't%dq' % i
            m.used.add(name)
            o = r.choice(['expr', 'expr', 'effect', 'effect', 'raise', 'set', 'var'])
            if o == 'expr':
                e, f = self.expr(m, 4)
                out.append('var %s: i32 = %s; println(%s);' % (name, e, name))
                exp.append(str(f(s, None)))
                continue
            got = self.pick(m, {'set': ['var'], 'var': ['var']}.get(o, [o]))
            if not got:
                continue
            acc, it = got
            if o == 'var':
                out.append('println("v", %s);' % acc)
                exp.append('v%d' % s[it])
            elif o == 'set':
                e, f = self.expr(m, 2)
                out.append('%s = %s;' % (acc, e))
                s[it] = f(s, None)
            elif o == 'effect':
                e, f = self.expr(m, 2)
                out.append('var %s: i32 = %s(%s); println(%s);' % (name, acc, e, name))
                exp.append(str(it.fn(s, f(s, None))))
            else:
                v = r.randint(0, 12)
                d = r.randint(0, 90)
                out.append('var %s: i32 = %s(<i32>%d) catch { println(ex!.what()); yield <i32>%d }; println(%s);' % (name, acc, v, d, name))
                x = it.fn(s, v)
                if x is None:
                    exp.append('%s in %s' % (it.exc.name, it.exc.mod.path))
                    x = d
                exp.append(str(x))
        return out, exp

    def files(self, mainlines, header=False):
        fs = {}
        for m in self.mods:
            name = m.name
            if header and not name and self.r.random() < .4:
                # a header gives the main file's names a prefix too
                name = self.r.choice([n for n in MODNAMES + ['app', 'main'] if n not in [x.name for x in self.mods]])
            ls = (['module ' + name] if name else []) + m.imports + m.body
            if not m.name:
                ls += ['func main() {'] + [' ' + x for x in mainlines] + ['}']
            fs[m.path] = '\n'.join(ls) + '\n'
        return fs


def crem(x):
    """C's remainder by M"""
    return x - M * int(x / M) if abs(x) < 2 ** 50 else (x % M if x >= 0 else -((-x) % M))


# -- programs that have to be refused: (what, files, file, row)

def broken(r, kind):
    while True:
        P = Program(r)
        lines, exp = P.main(4)
        n = len(P.mods) - 1
        m = r.choice(P.mods[1:])
        o = r.choice(P.mods[:m.i])
        res = None
        imp = P.rel(m, o)
        fresh = 'q%dz' % r.randrange(1000)

        def top(line, mod=m):
            """adds an import as the last one"""
            mod.imports.append(line)
            return mod.path, len(mod.imports) + (1 if mod.name else 0)

        def bottom(line, mod=m):
            mod.body.append(line)
            return mod.path, len(mod.imports) + len(mod.body) + (1 if mod.name else 0)

        def drop(line, mod):
            """what main imports stays, so the module is compiled"""
        # every module has to be reached
        if len(P.deps[n] | {n}) != n + 1:
            continue
        hid = [x for x in o.items if not x.pub and x.kind in ('func', 'struct', 'class', 'var', 'const', 'enum', 'over', 'gen', 'box')]
        name = 'no_such'
        if 'private' in kind:
            if not hid:
                continue
            name = r.choice(hid).name
        if kind in ('private entity', 'unknown entity'):
            res = top('import { %s as %s } from "%s"' % (name, fresh, imp))
        elif kind in ('private through module', 'unknown through module'):
            top('import "%s" as %s' % (imp, fresh))
            res = bottom('func use9z() { var w9 = %s.%s; }' % (fresh, name))
        elif kind == 'missing file':
            res = top('import "./nosuch/%s" as %s' % (r.choice(['x.cxy', 'y/z.cxy']), fresh))
        elif kind == 'no module header':
            files = P.files(lines)
            d = m.path.rsplit('/', 1)[0] + '/' if '/' in m.path else ''
            res = top('import "./plain9.cxy" as ' + fresh)
            return kind, dict(P.files(lines), **{d + 'plain9.cxy': 'pub func p9(): i32 => <i32>3\n'}), res[0], res[1]
        elif kind == 'same module name':
            d = m.path.rsplit('/', 1)[0] + '/' if '/' in m.path else ''
            res = top('import "./same9.cxy" as ' + fresh)
            return kind, dict(P.files(lines), **{d + 'same9.cxy': 'module %s\npub func p9(): i32 => <i32>3\n' % o.name}), d + 'same9.cxy', 1
        elif kind == 'cycle':
            if m.name == '' or o.i not in P.deps[m.i]:
                continue
            # o, which m imports, imports m
            res = None
            line = 'import "%s" as %s' % (P.rel(o, m), fresh)
            o.imports.append(line)
            return kind, P.files(lines), None, None
        elif kind == 'imports itself':
            if m.name == '':
                continue
            res = top('import "./%s" as %s' % (P.rel(m, m).split('../')[-1] if False else m.path.rsplit('/', 1)[-1], fresh))
        elif kind == 'imported twice':
            pubs = [x for x in o.items if x.pub]
            if not pubs:
                continue
            x = r.choice(pubs)
            top('import { %s as %s } from "%s"' % (x.name, fresh, imp))
            res = top('import { %s as %s } from "%s"' % (r.choice(pubs).name, fresh, imp))
        elif kind == 'declared and imported':
            pubs = [x for x in o.items if x.pub]
            if not pubs:
                continue
            x = r.choice(pubs)
            top('import { %s as %s } from "%s"' % (x.name, fresh, imp))
            res = bottom(r.choice(['func %s(k: i32): i32 => k', 'struct %s { a: i32; }', 'const %s: i32 = 4;', 'enum %s { A, B }',
                                   'type %s = i32', 'class %s { func `init`() {} }']) % fresh)
        elif kind == 'not imported':
            # known only to a module that is imported
            item = [x for x in o.items if x.pub and x.kind in ('func', 'const', 'var')]
            item = [x for x in item if x.name not in BUILTIN]
            if not item:
                continue
            x = r.choice(item)
            if x.name in m.used or any(v[0] == x.name for v in m.vis):
                continue
            res = bottom('func use9z() { var w9 = %s%s; }' % (x.name, '(<i32>3)' if x.kind == 'func' else ''))
        elif kind == 'not exported again':
            # imported by o, but not declared there
            top('import "%s" as %s' % (imp, fresh))
            names = [v for v in o.vis if v[1].mod is not o and '.' not in v[0] and v[1].kind in ('func', 'const', 'var')
                     and v[0] not in [x.name for x in o.items]]
            if not names:
                continue
            v = r.choice(names)
            res = bottom('func use9z() { var w9 = %s.%s%s; }' % (fresh, v[0], '(<i32>3)' if v[1].kind == 'func' else ''))
        return (kind, P.files(lines)) + res


BROKEN = ['private entity', 'unknown entity', 'private through module', 'unknown through module', 'missing file', 'no module header',
          'same module name', 'cycle', 'imports itself', 'imported twice', 'declared and imported', 'not imported', 'not exported again']


def chain(r):
    """a long chain of modules, each of which uses the next, and some that all of them share"""
    n = r.randint(10, 60)
    fs, add = {}, []
    for i in range(n):
        a = r.randint(0, 9)
        add.append(a)
        t = 'module c%d\n' % i
        if i:
            t += r.choice(['import "./c%d.cxy" as p\n', 'import { f as pf } from "./c%d.cxy"\nimport "./c%d.cxy" as p\n']).replace('%d', str(i - 1))
            if i > 1 and r.random() < .5:
                t += 'import "./c%d.cxy" as pp\n' % r.randrange(i - 1)
        t += 'pub var n: i32 = %d;\n' % i
        t += 'pub func f(k: i32): i32 { n = n + <i32>1; return %s + <i32>%d + n }\n' % ('p.f(k)' if i else 'k', a)
        fs['c%d.cxy' % i] = t
    calls = r.randint(1, 3)
    exp, main = [], 'import "./c%d.cxy" as top\nimport { n as n0 } from "./c0.cxy"\nfunc main() {\n' % (n - 1)
    for c in range(calls):
        k = r.randint(0, 50)
        main += ' println(top.f(<i32>%d));\n' % k
        exp.append(str(k + sum(add) + sum(i + c + 1 for i in range(n))))
    main += ' println(n0);\n}\n'
    exp.append(str(calls))
    return main, fs, exp


def conditional(r):
    """imports that depend on definitions given on the command line, and imports of tests"""
    defs = {d: r.random() < .5 for d in ('DA', 'DB')}
    fs = {'p/one.cxy': 'module one\npub func f(): i32 => <i32>1\npub const C: i32 = 10;\n',
          'p/two.cxy': 'module two\npub func f(): i32 => <i32>2\npub const C: i32 = 20;\n',
          'three.cxy': 'module three\npub func f(): i32 => <i32>3\npub const C: i32 = 30;\n'}
    files = ['./p/one.cxy', './p/two.cxy', './three.cxy']

    def imp(i, nm):
        return r.choice(['import { f as %s, C as %sC } from "%s"' % (nm, nm, files[i]),
                         'import f as %s from "%s"\nimport { C as %sC } from "%s"' % (nm, files[i], nm, files[i])])
    text, exp, main = '', [], ''
    for j in range(r.randint(1, 3)):
        nm = 'g%d' % j
        d = r.choice(['DA', 'DB'])
        neg = r.random() < .5
        a, b, c = [r.randrange(3) for _ in range(3)]
        form = r.choice(['else', 'else', 'chain'])
        on = defs[d] != neg
        cond = '%sdefined %s' % ('!' if neg else '', d)
        if form == 'else':
            text += '##if (%s) {\n%s\n}\nelse {\n%s\n}\n' % (cond, imp(a, nm), imp(b, nm))
            v = a if on else b
        else:
            d2 = 'DB' if d == 'DA' else 'DA'
            text += '##if (%s) {\n%s\n}\nelse ##if (defined %s) {\n%s\n}\nelse {\n%s\n}\n' % (cond, imp(a, nm), d2, imp(b, nm), imp(c, nm))
            v = a if on else b if defs[d2] else c
        main += ' println(%s(), " ", %sC);\n' % (nm, nm)
        exp.append('%d %d' % (v + 1, (v + 1) * 10))
    tests = r.choice(['import test { a, b as c } from "./nosuch.cxy"\n', 'import test "./nosuch.cxy" as nt\n', 'import test "./nosuch.cxy"\n',
                      'import test a from "./nosuch.cxy"\n', 'import test a as b from "./nosuch.cxy"\n', ''])
    parts = [text, tests]
    r.shuffle(parts)
    return ''.join(parts) + 'func main() {\n' + main + '}\n', fs, exp, [x for d in sorted(defs) if defs[d] for x in ('-D' + d + '=1',)]
