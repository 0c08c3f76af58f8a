"""A systematic grid of small programs around the sizes and counts the language
checks: every index, arity and member from one below to one above the limit."""

VALS = ['1`i32', 'true', '"s"', "'c'", '2.5']


def tup(n):
    return '(' + ', '.join(VALS[i % 5] for i in range(n)) + ')'


def main(body, pre=''):
    return (pre + '\nfunc main() {\n  ' + body + '\n}\n').encode()


def grid():
    out = []

    def add(name, body, pre=''):
        out.append(('grid-%s' % name, main(body, pre)))

    for n in (2, 3, 4):
        t = tup(n)
        for i in range(n + 2):
            add('tuple/%d/%d' % (n, i), 'var t = %s; println(t.%d);' % (t, i))
            add('tuple-set/%d/%d' % (n, i), 'var t = %s; t.%d = t.%d; var p = &t.%d;' % (t, i, i, i))
            add('ctuple/%d/%d' % (n, i), '#const t = %s; println(#{t.%d});' % (t, i))
            add('cindex/%d/%d' % (n, i), '#const t = %s; println(#{t[%d]});' % (t, i))
            add('cdotindex/%d/%d' % (n, i), '#const t = %s; println(#{t.[%d]});' % (t, i))
            add('typeat/%d/%d' % (n, i), 'type T = (%s); println(sizeof!(typeat!(#T, %d)));' % (', '.join(['i32'] * n), i))
            add('typeat-args/%d/%d' % (n, i), 'f(%s);' % ', '.join(VALS[:n]), 'func f(...args: auto) { println(args.%d); }' % i)
            add('array/%d/%d' % (n, i), 'var a = [%s]; println(a.[%d]); a.[%d] = 4`i32;' % (', '.join(['1`i32'] * n), i, i))
            add('array-len/%d/%d' % (n, i), 'var a: [i32, %d] = [%s]; println(a.[0]);' % (n, ', '.join(['1`i32'] * i)))
            add('unpack/%d/%d' % (n, i), 'var %s = %s; println(a0);' % (', '.join('a%d' % k for k in range(i)) or 'a0', t))
            add('unpack-p/%d/%d' % (n, i), 'var (%s) = %s;' % (', '.join('a%d' % k for k in range(i)), t))
            add('args/%d/%d' % (n, i), 'println(f(%s));' % ', '.join(['1`i32'] * i),
                'func f(%s) => a0' % ', '.join('a%d: i32' % k for k in range(n)))
            add('args-default/%d/%d' % (n, i), 'println(f(%s));' % ', '.join(['1`i32'] * i),
                'func f(%s, z: i32 = 5) => a0 + z' % ', '.join('a%d: i32' % k for k in range(n)))
            add('args-closure/%d/%d' % (n, i), 'var g = (%s) => a0; println(g(%s));' %
                (', '.join('a%d: i32' % k for k in range(n)), ', '.join(['1`i32'] * i)))
            add('args-lambda/%d/%d' % (n, i), 'println(ap((%s) => %s));' % (', '.join('a%d: i32' % k for k in range(i)), 'a0' if i else '1`i32'),
                'func ap(f: func(%s) -> i32) => f(%s)' % (', '.join('a%d: i32' % k for k in range(n)), ', '.join(['1`i32'] * n)))
            add('args-method/%d/%d' % (n, i), 'var s = S{x: 1}; println(s.f(%s));' % ', '.join(['1`i32'] * i),
                'struct S { x: i32; func f(%s) => a0 + x }' % ', '.join('a%d: i32' % k for k in range(n)))
            add('args-ctor/%d/%d' % (n, i), 'var s = S(%s); println(s.x);' % ', '.join(['1`i32'] * i),
                'class S { x: i32; func `init`(%s) { x = a0; } }' % ', '.join('a%d: i32' % k for k in range(n)))
            add('args-generic/%d/%d' % (n, i), 'println(f[%s](1`i32));' % ', '.join(['i32'] * i),
                'func f[%s](x: T0) => x' % ', '.join('T%d' % k for k in range(n)))
            add('type-generic/%d/%d' % (n, i), 'var s: S[%s]; println(sizeof!(#S[%s]));' % (', '.join(['i32'] * i), ', '.join(['i32'] * i)),
                'struct S[%s] { x: T0; }' % ', '.join('T%d' % k for k in range(n)))
            add('struct-lit/%d/%d' % (n, i), 'var s = S{%s}; println(s.x0);' % ', '.join('x%d: 1' % k for k in range(i)),
                'struct S { %s }' % ' '.join('x%d: i32;' % k for k in range(n)))
            add('struct-mem/%d/%d' % (n, i), 'var s = S{}; println(s.x%d); println(offset!(#S, "x%d"));' % (i, i),
                'struct S { %s }' % ' '.join('x%d: i32 = 1;' % k for k in range(n)))
            add('enum/%d/%d' % (n, i), 'var e = E.A%d; println(e); println(e as i32);' % i,
                'enum E { %s }' % ', '.join('A%d' % k for k in range(n)))
            add('macro/%d/%d' % (n, i), 'println(M!(%s));' % ', '.join(['1'] * i), 'macro M(%s) a0 + 1' % ', '.join('a%d' % k for k in range(n)))
            ts = ['i32', 'f64', 'bool', 'string', 'wchar']
            add('union/%d/%d' % (n, i), 'var u: %s = 1`i32; match (u) { %s }' % (' | '.join(ts[:n]), ' '.join('case %s as v => println(v);' % x for x in ts[:i])))
            add('cfor/%d/%d' % (n, i), '#const t = %s; #for (const k: 0..%d) { println(#{t.[k]}); }' % (t, i))
            add('for-tuple/%d/%d' % (n, i), 'for (const %s: P{n: 2}) println(1);' % ', '.join('v%d' % k for k in range(max(i, 1))),
                'struct P { n: i32; func `..`() { var i = 0`i32; var n = this.n; return (): Optional[(%s)] => { if (i < n) { i++; return Some((%s)); } return None[(%s)](); } } }'
                % (', '.join(['i32'] * n), ', '.join(['i'] * n), ', '.join(['i32'] * n)))
            add('for-range/%d/%d' % (n, i), 'for (const %s: range(%s)) println(1);' % (', '.join('v%d' % k for k in range(max(1, i - 1))), ', '.join(['%d' % k for k in range(1, i + 1)])))
            add('for-array/%d/%d' % (n, i), 'var a = [%s]; for (const %s: a) println(v0);' % (', '.join(['1`i32'] * n), ', '.join('v%d' % k for k in range(max(1, i)))))
            add('exc/%d/%d' % (n, i), 'f() catch { println(1); };', 'exception E(%s) => "m"\nfunc f(): !void { raise E(%s); }' %
                (', '.join('a%d: i32' % k for k in range(n)), ', '.join(['1`i32'] * i)))
            add('op/%d/%d' % (n, i), 'var s = S{x: 1}; println(s[%s]); println(s(%s));' % (', '.join(['1`i32'] * i), ', '.join(['1`i32'] * i)),
                'struct S { x: i32; func `[]`(%s) => a0 + x  func `()`(%s) => a0 + x }' % ((', '.join('a%d: i32' % k for k in range(n)),) * 2))
    # a value of each kind in each place
    vals = [('i', '1`i32'), ('b', 'true'), ('s', '"abc"'), ('c', "'x'"), ('f', '1.5'), ('t', '(1`i32, true)'), ('a', '[1`i32, 2`i32]'),
            ('n', 'null'), ('S', 'S{x: 1}'), ('C', 'C(1`i32)'), ('E', 'E.A'), ('fn', 'fun'), ('cl', '() => 1`i32'), ('o', 'Some(1`i32)'),
            ('ty', 'i32'), ('Sty', 'S'), ('neg', '-1'), ('call', 'fun()'), ('vd', 'vd()'), ('r', '0..3'), ('u', 'un()'), ('und', 'undefinedName')]
    pre = ('struct S { x: i32; func g() => x }\nclass C { y: i32; func `init`(y: i32) { this.y = y; } func g() => y }\nenum E { A, B }\n'
           'func fun() => 3`i32\nfunc vd() {}\nfunc un(): i32 | bool { var u: i32 | bool = 1`i32; return u; }\n')
    uses = [('index', 'var v = %s; println(v.[0]);'), ('idx2', 'var v = %s; println(v[0]);'), ('mem', 'var v = %s; println(v.x);'), ('mem0', 'var v = %s; println(v.0);'),
            ('meth', 'var v = %s; println(v.g());'), ('call', 'var v = %s; println(v());'), ('call1', 'var v = %s; v(1);'), ('neg', 'println(-%s);'), ('not', 'println(!%s);'),
            ('bnot', 'println(~%s);'), ('deref', 'var v = %s; println(*v);'), ('addr', 'var v = %s; var p = &v; println(p == null);'), ('addr2', 'var p = &%s;'),
            ('inc', 'var v = %s; v++; --v;'), ('if', 'if (%s) println(1);'), ('while', 'while (%s) break;'), ('for', 'for (const x: %s) println(x);'),
            ('switch', 'switch (%s) { case 1 => println(1); else => println(2); }'), ('match', 'match (%s) { case i32 => println(1); else => println(2); }'),
            ('cast', 'println(%s as i64);'), ('castS', 'var v = %s as S;'), ('castC', 'var v = %s as C;'), ('castp', 'var v = %s as ^i32;'), ('casto', 'var v: i32? = %s;'),
            ('add', 'println(%s + 1`i32);'), ('addr', 'println(1`i32 + %s);'), ('cmp', 'println(%s == 1`i32);'), ('cmp2', 'var v = %s; println(v == v);'), ('lt', 'var v = %s; println(v < v);'),
            ('and', 'println(%s && true);'), ('shl', 'println(1`i32 << %s);'), ('ret', 'f();', ), ('asg', 'var v = 1`i32; v = %s;'), ('asgv', 'var v = %s; v = v;'),
            ('asgl', '%s = 1;'), ('tern', 'println(%s ? 1`i32 : 2`i32);'), ('tern2', 'println(true ? %s : 2`i32);'), ('arr', 'var v = [%s, 1`i32];'), ('arrt', 'var v: [i32, 2] = %s;'),
            ('tup', 'var v = (%s, 1`i32); println(v.1);'), ('unp', 'var a, b = %s; println(a);'), ('pr', 'println(%s);'), ('str', 'println(f"x${%s}y");'), ('del', 'var v = %s; delete v;'),
            ('raise', 'raise %s;'), ('cat', 'var v = %s catch 1`i32;'), ('bang', 'var v = %s!;'), ('cap', 'var v = %s; var g = () => v; println(g());'), ('gen', 'println(id(%s));'),
            ('len', 'println(len!(%s));'), ('sz', 'println(sizeof!(%s));'), ('ty', 'var v: #{typeof!(%s)};'), ('ct', 'println(#{%s});'), ('ctm', 'var v = %s; println(#{typeof!(v).name});'),
            ('cif', '#if (%s) { println(1); }'), ('cfor', '#for (const x: %s) { println(#{x}); }'), ('cmem', 'println(#{(%s).membersCount});'), ('range', 'for (const x: 0..%s) println(x);'),
            ('aspec', 'var v: [i32, %s];'), ('new', 'var v = new %s;'), ('is', 'var v = %s; println(v is i32);'), ('mv', 'var v = %s; var w = &&v;'), ('dat', 'println(data!(%s));'),
            ('pt', 'var v = ptroff!(%s);'), ('dst', 'var v = %s; destructor!(v);'), ('hm', 'println(#{has_member!(%s, "x")});'), ('bo', 'println(base_of!(%s));'), ('assert', 'assert!(%s);'),
            ('lsh', 'println(lshift!(1, %s));'), ('sp', 'f2(...%s);'), ('st', 'var s = S{x: %s};'), ('cs', 'var s = C(%s);'), ('df', 'defer %s;'), ('cstr', 'println(cstr!(%s));')]
    post = 'func id[T](x: T) => x\nfunc f2(a: i32, b: bool) {}\n'
    for un in uses:
        for vn, v in vals:
            if un[0] == 'ret':
                out.append(('gridv-ret/' + vn, (pre + post + 'func f(): i32 => %s\nfunc main() { println(f()); }\n' % v).encode()))
                continue
            out.append(('gridv-%s/%s' % (un[0], vn), (pre + post + 'func main() {\n  ' + un[1].replace('%s', v) + '\n}\n').encode()))
    # every compile time member of every kind of type
    mems = ('name value members attributes annotations Tinfo elementType pointedType strippedType targetType callable returnType baseType params '
            'membersCount isInteger isSigned isUnsigned isFloat isOptional isNumber isPointer isReference isUnresolved isStruct isClass isTuple isUnion '
            'isField isString isBoolean isChar isArray isSlice isEnum isVoid isDestructible isCover isFunction isClosure isFuncTypeParam '
            'isAnonymousStruct isResultType isLiteral hasBase hasDeinit hasVoidReturnType hasReferenceMembers base nosuch').split()
    types = ['i32', 'string', '(i32, bool)', '[i32, 3]', '^i32', 'S', 'C', 'E', 'func(x: i32) -> bool', 'i32?', 'i32 | bool', 'void', 'wchar', '[i32]', '&S', 'f64']
    for m in mems:
        for k, t in enumerate(types):
            out.append(('gridt-%s/%d' % (m, k), (pre + 'type T = %s;\nfunc main() {\n  println(#{T.%s});\n}\n' % (t, m)).encode()))
    macros = ('assert ast_list_add ast_paste base_of column cstr data error ex file has_member has_type indexof info '
              'init_defaults is_base_of lambda_of len line lshift mk_ast_list mk_field mk_field_expr mk_ident mk_integer mk_str mk_struct_expr '
              'mk_tuple_expr offset ptroff require select sizeof typeat typeof varargs_def warn nosuch').split()
    args = [('none', ''), ('i', '1'), ('s', '"x"'), ('n', 'null'), ('v', 'v'), ('sv', 'sv'), ('cv', 'cv'), ('T', '#i32'), ('S', '#S'), ('C', '#C'), ('f', 'fun'), ('und', 'zz'),
            ('t', '(1, 2)'), ('ii', '1, 2'), ('Si', '#S, 1'), ('Sx', '#S, "x"'), ('SC', '#S, #C'), ('svx', 'sv, "x"'), ('iT', '1, #i32'), ('bab', 'true, 1, "b"'), ('iii', '1, 2, 3'),
            ('ssi', '"a", "b", 1'), ('iiiii', '1, 2, 3, 4, 5'), ('neg', '#(i32, i32), -1'), ('big', '#(i32, i32), 2')]
    for m in macros:
        for an, a in args:
            out.append(('gridm-%s/%s' % (m, an), (pre + 'func main() {\n  var v = 1`i32; var sv = S{x: 1}; var cv = C(1);\n  println(%s!(%s));\n}\n' % (m, a)).encode()))
            out.append(('gridms-%s/%s' % (m, an), (pre + 'func main() {\n  var v = 1`i32; var sv = S{x: 1}; var cv = C(1);\n  #const q = %s!(%s);\n}\n' % (m, a)).encode()))
    return out
