"""Ill typed programs and their well typed counterparts (C10)."""
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
PRE = '''exception Ex(m: String) => m != null ? m.str() : ""
exception Ey(m: String) => m != null ? m.str() : ""
struct P { x: i32; y: string; func sum() => x; }
struct Q { p: P; z: f64; }
struct Op { v: i32; func `+`(o: Op) => Op{v: v + o.v}; func `[]`(i: i32) => v + i; }
class K { a: i32; func `init`(a: i32) { this.a = a; } func get() => a; }
class L : K { b: i32 = 2; func `init`(a: i32) { super(a); } }
class Z { c: i32 = 1; func `init`() {} }
enum Col { Red, Green, Blue }
enum Dir { Up, Down }
type U = i32 | string | f64
type Al = i32
func one(a: i32) => a + 1
func two(a: i32, b: string): string { return b }
func dflt(a: i32, b: i32 = 4) => a + b
func nop() {}
func raises(k: i32): !i32 { if (k > 3`i32) raise Ex("a".S); return k }
func gen[T](a: T) => a
func gen2[A, B](a: A, b: B): A { return a }
func hof(f: func(x: i32) -> i32) => f(3`i32)
struct Gs[T] { v: T; }
macro MM(x, y) x! + y!
'''
VARS = '''var i: i32 = 3; var l: i64 = 4; var u: u8 = 5; var f = 1.5; var b = true; var s = "abc"; var c = 'x';
  const ci = 7; var p = P{x: 1, y: "a"}; var q = Q{p: P{x: 1, y: "b"}, z: 1.0}; var k = K(3`i32); var z = Z(); var kl = L(1`i32);
  var e = Col.Red; var d = Dir.Up; var t = (1, "a", true); var ar = [1`i32, 2`i32, 3`i32]; var un: U = 3`i32; var pi = ptrof i; var op = Op{v: 1}; var o: i32? = null; var fn_ = (x: i32) => x + 1`i32;
'''


def table(name):
    return [l.rstrip('\n') for l in open(os.path.join(HERE, name)) if l.strip()]


BAD, BAD_DECLS, GOOD, GOOD_DECLS = [table('ill_%s.txt' % n) for n in ('stmts', 'decls', 'good', 'good_decls')]
# control flow means something else (or nothing) inside a closure, a handler or a deferred block
FLOW = re.compile(r'\b(return|break|continue|yield|raise|catch|defer|discard|this|super|init)\b|\braises\b')
# a second declaration of a variable is only one in the same scope
SAME_SCOPE = ('var i = 3;',)
FILL = ['', '// it is fine; var x: i32 = "a"', '/* a comment\n   over lines */', 'println("a\\nb // c");',
        "println('\\'');", 'println(1`i32 + 2`i32);', 'nop();', 'if (true) {\n nop();\n}', 'println(\n "x"\n);', '/* /* nested */ */'][:9]


def fill(r, n=4):
    return ''.join(r.choice(FILL) + '\n' for _ in range(r.randint(0, n)))


def decl_fill(r):
    return ''.join(r.choice(['', '// c', '/* a\n b */', 'func fill%d() => %d' % (r.randint(0, 10 ** 9), i),
                             'struct Fill%d { a: i32; }' % r.randint(0, 10 ** 9)]) + '\n' for i in range(r.randint(0, 4)))


CONTEXTS = ['main', 'func', 'block', 'if', 'else', 'for', 'while', 'case', 'method', 'ctor', 'generic', 'closure', 'handler',
            'defer', 'gmethod', 'module']


def place(r, stmt, ctx=None, quiet=False):
    """(files, name of the file, first and last row of stmt, context)"""
    names = ['main', 'func', 'block', 'if', 'else', 'for', 'while', 'case'] if FLOW.search(stmt) else CONTEXTS
    if stmt in SAME_SCOPE:
        names = ['main', 'func', 'module']
    if re.search(r'\b(break|continue)\b', stmt):
        names = ['main', 'func', 'block', 'if', 'else', 'case']
    ctx = ctx or r.choice(names)
    fill = (lambda r: '') if quiet else globals()['fill']
    mark = '\x01'
    body = VARS + fill(r) + mark + stmt + '\n' + fill(r)
    if ctx == 'block':
        body = VARS + '{\n' + fill(r) + mark + stmt + '\n}\n'
    elif ctx == 'if':
        body = VARS + 'if (b) {\n' + fill(r) + mark + stmt + '\n}\n'
    elif ctx == 'else':
        body = VARS + 'if (!b) { nop(); }\nelse {\n' + fill(r) + mark + stmt + '\n}\n'
    elif ctx == 'for':
        body = VARS + 'for (const jj: 0..1) {\n' + fill(r) + mark + stmt + '\n}\n'
    elif ctx == 'while':
        body = VARS + 'while (b) {\n' + fill(r) + mark + stmt + '\nbreak;\n}\n'
    elif ctx == 'case':
        body = VARS + 'switch (i) { case 1`i32 => nop(); case 3`i32 => {\n' + fill(r) + mark + stmt + '\n} default => nop(); }\n'
    elif ctx == 'defer':
        body = VARS + 'defer {\n' + fill(r) + mark + stmt + '\n}\n'
    pre, post = PRE + decl_fill(r), decl_fill(r)
    call = ''
    if ctx == 'closure':
        host = 'func host() {\nvar cl = (cx: i32) => {\n' + body + '};\ncl(1`i32);\n}\n'
    elif ctx == 'handler':
        host = 'func host() {\nvar hv = raises(9`i32) catch {\n' + body + 'yield 1`i32;\n};\n}\n'
    elif ctx == 'method':
        host = 'struct Host { hx: i32 = 1;\n func go() {\n' + body + '}\n}\nfunc host() { var h = Host{}; h.go(); }\n'
    elif ctx == 'ctor':
        host = 'class Host { hx: i32 = 1;\n func `init`() {\n' + body + '}\n}\nfunc host() { var h = Host(); }\n'
    elif ctx == 'gmethod':
        host = 'struct Host[T] { hx: T;\n func go() {\n' + body + '}\n}\nfunc host() { var h = Host[i32]{hx: 1}; h.go(); }\n'
    elif ctx == 'generic':
        host = 'func hostg[T](gt: T) {\n' + body + '}\nfunc host() { hostg(1`i32); }\n'
    elif ctx == 'module':
        host = 'pub func host() {\n' + body + '}\n'
    elif ctx == 'main':
        text = pre + 'func main() {\n' + body + '}\n' + post
        return finish({'a.cxy': text}, 'a.cxy', ctx)
    else:
        host = 'func host() {\n' + body + '}\n'
    if ctx == 'module':
        return finish({'mod.cxy': 'module mod\n' + pre + host + post,
                       'a.cxy': 'import "./mod.cxy" as mod\nfunc main() {\n mod.host();\n}\n'}, 'mod.cxy', ctx)
    return finish({'a.cxy': pre + host + post + 'func main() {\n host();\n}\n'}, 'a.cxy', ctx)


def finish(files, name, ctx, extra=0):
    text = files[name]
    at = text.index('\x01')
    row = text.count('\n', 0, at) + 1
    end = row + len(text[at:].split('\n', 1)[0].split('\r')) - 1
    files[name] = text.replace('\x01', '')
    return files, name, row, end, ctx


def place_decl(r, decl):
    if r.random() < 0.3:
        return finish({'mod.cxy': 'module mod\n' + PRE + decl_fill(r) + '\x01' + decl + '\n' + decl_fill(r) + 'pub func host() {}\n',
                       'a.cxy': 'import "./mod.cxy" as mod\nfunc main() {\n mod.host();\n}\n'}, 'mod.cxy', 'module')
    return finish({'a.cxy': PRE + decl_fill(r) + '\x01' + decl + '\n' + decl_fill(r) + 'func main() {\n' + fill(r) + '}\n'}, 'a.cxy', 'top')


# ---------------------------------------------------------------- types
SI = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}
UI = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8}
FL = {'f32': 4, 'f64': 8}
EN = ['Col', 'Dir']
VALUES = {'i8': '1`i8', 'i16': '1`i16', 'i32': '1`i32', 'i64': '1`i64', 'u8': '1`u8', 'u16': '1`u16', 'u32': '1`u32',
          'u64': '1`u64', 'f32': '1.5`f32', 'f64': '1.5', 'bool': 'true', 'char': "'x'", 'string': '"s"',
          'P': 'P{x: 1`i32, y: "a"}', 'Q': 'Q{p: P{x: 1`i32, y: "b"}, z: 1.0}', 'K': 'K(1`i32)', 'L': 'L(1`i32)', 'Z': 'Z()',
          'Col': 'Col.Green', 'Dir': 'Dir.Down', '(i32, string)': '(1`i32, "a")', '(i64, string)': '(1`i64, "a")',
          '[i32, 2]': '[1`i32, 2`i32]', '[i32, 3]': '[1`i32, 2`i32, 3`i32]', '[string, 2]': '["a", "b"]', 'U': None, '^i32': None,
          '^string': None, 'i32?': None, 'Gs[i32]': 'Gs[i32]{v: 1`i32}', 'Gs[string]': 'Gs[string]{v: "a"}'}
SETUP = {'U': 'var %s: U = 3`i32;', 'i32?': 'var %s: i32? = 3`i32;', '^i32': 'var w%s = 3`i32; var %s = ptrof w%s;',
         '^string': 'var w%s = "a"; var %s = ptrof w%s;'}
NAMES = list(VALUES)


def setup(t, name):
    s = SETUP.get(t)
    if s is None:
        return 'var %s: %s = %s;' % (name, t, VALUES[t])
    return s % ((name,) * s.count('%s'))


def num(t):
    return t in SI or t in UI or t in FL


def integer(t):
    return t in SI or t in UI


def implicit(a, b):
    """whether a value of type b converts to a"""
    if a == b:
        return True
    if a in SI:
        return b in SI and SI[b] <= SI[a] or b in UI and UI[b] < SI[a] or (b in EN and a == 'i64')
    if a in UI:
        return b in SI and SI[b] <= UI[a] or b in UI and UI[b] <= UI[a] or (b in EN and a == 'u64')
    if a in FL:
        return num(b) or b in EN
    if a == 'K':
        return b == 'L'
    if a == 'U':
        return b in ('i32', 'string', 'f64')
    if a == '^i32':
        return b in ('[i32, 2]', '[i32, 3]')
    if a == '^string':
        return b == '[string, 2]'
    if a == 'i32?':
        return implicit('i32', b)
    return False


def question(ctx, a, b, i):
    """(declarations, statement using v of type b, verdict: True, False or None when not judged)"""
    arr = a.startswith('[')
    v = implicit(a, b)
    if ctx == 'var':
        return '', 'var r%d: %s = v;' % (i, a), v
    if ctx == 'assign':
        if arr or a.startswith('^') and b.startswith('['):
            v = None if v else False
        return '', '%s r%d = v;' % (setup(a, 'r%d' % i), i), v
    if ctx == 'ret':
        return 'func rf%d(v: %s): %s {\n\x01 return v;\n}\n' % (i, b, a), 'rf%d(v);' % i, None if arr else v
    if ctx == 'arg':
        # numbers convert to classes whose constructor takes one
        if a in ('K', 'L') and num(b):
            v = None
        return 'func af%d(r: %s) { }\n' % (i, a), 'af%d(v);' % i, v
    if ctx == 'field':
        return 'struct Fs%d { v: %s; }\n' % (i, a), 'var r%d = Fs%d{v: v};' % (i, i), None if arr or a.startswith('^') and b.startswith('[') else v
    if ctx == 'generic':
        if a in ('K', 'L') and num(b) or arr:
            v = None
        return '', 'gen[%s](v);' % a, None if arr else v
    if ctx == 'tuple':
        # inside tuples nothing is converted, except in a literal
        if a in ('K', 'i32?') and a != b or arr or '^' in a:
            v = None
        return '', 'var r%d: (%s, i32) = (v, 1`i32);' % (i, a), v
    raise KeyError(ctx)


ASSIGN = ['var', 'assign', 'ret', 'arg', 'field', 'generic', 'tuple']
OPS = ['+', '-', '*', '/', '%', '==', '!=', '<', '<=', '>', '>=', '&&', '||', '<<', '>>', '&', '|', '^']
COMPOUND = ['+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '|=', '^=']


def operator(op, a, b):
    n = lambda t: num(t) or t in EN
    k = lambda t: integer(t) or t in EN
    ptr = lambda t: t.startswith('^') or t.startswith('[')
    if op in ('+', '-', '*', '/', '%') and a == b == 'char':
        return None
    if op in ('+', '-') and (ptr(a) or ptr(b)):
        if a in VALUES and ptr(a) and a == b:
            return None
        return None if a.startswith('^') and (k(b) or b in ('bool', 'char')) else False
    if op in ('+', '-', '*', '/'):
        return n(a) and n(b)
    if op in ('%', '<<', '>>', '&', '|', '^'):
        return k(a) and k(b) or (None if a == b and a in ('bool', 'char') else False)
    if op in ('==', '!='):
        if a.startswith('^') or b.startswith('^'):
            return None
        return n(a) and n(b) or a == b and a in ('bool', 'char', 'K', 'L', 'Z')
    if op in ('<', '<=', '>', '>='):
        return n(a) and n(b) or a == b == 'char'
    if op in ('&&', '||'):
        return None if 'i32?' in (a, b) else a == b == 'bool'
    raise KeyError(op)


def compound(op, a, b):
    if not (num(a) or a in EN or a in ('char', 'bool') or a.startswith('^')):
        return False
    if a.startswith('^') or a == b and a in ('char', 'bool') + tuple(EN):
        return None
    if a in FL and op not in ('+=', '-=', '*=', '/='):
        return False
    return implicit(a, b)


def cast(a, b):
    if a == b:
        return None if a.startswith('[') else True
    if num(a) and num(b) or num(a) and b in EN:
        return True
    if integer(a) and b in ('bool', 'char'):
        return True
    if a in FL and b == 'bool':
        return False
    if a in ('bool', 'string', 'P', 'Q', 'Gs[i32]', 'Gs[string]') or a.startswith('(') or a.startswith('['):
        return None if b == 'U' and a == 'string' else False
    if num(a):
        if b == 'char':
            return None
        return None if b == 'U' and a in ('i32', 'f64') else False
    if a == 'K' and b == 'L':
        return True
    if a == 'U':
        return b in ('i32', 'string', 'f64')
    return None


def ternary(a, b):
    if a.startswith('[') or '?' in a + b:
        return None
    return implicit(a, b) if not (a.startswith('^') and b.startswith('[')) else None


ERR = re.compile(r'error: (.*)\n\s+in (\S+?):(\d+):(\d+)')


def ask(r, i=0):
    """(declarations, body of a function, verdict, key) of a random question about two types"""
    a, b = r.choice(NAMES), r.choice(NAMES)
    what = r.choice(ASSIGN * 3 + ['op'] * 14 + ['compound'] * 4 + ['cast'] * 3 + ['tern'] * 2)
    if what in ('op', 'compound', 'cast') and r.random() < 0.6:
        a, b = [r.choice([n for n in NAMES if num(n) or n in EN or n in ('bool', 'char', 'string', 'U', 'K')]) for _ in 'ab']
    if r.random() < 0.12:
        b = a
    sv = setup(b, 'v')
    if what in ASSIGN:
        decl, stmt, v = question(what, a, b, i)
        key = what
    elif what == 'op':
        key = r.choice(OPS)
        decl, stmt, v = '', '%s var r%d = w %s v;' % (setup(a, 'w'), i, key), operator(key, a, b)
    elif what == 'compound':
        key = r.choice(COMPOUND)
        decl, stmt, v = '', '%s w %s v;' % (setup(a, 'w'), key), compound(key, a, b)
    elif what == 'cast':
        key = r.choice(['as', '<>'])
        if b == 'U' and VALUES.get(a):
            sv = 'var v: U = %s;' % (VALUES[a] if a in ('i32', 'string', 'f64') else '3`i32')
        decl, stmt, v = '', 'var r%d = %s;' % (i, 'v as %s' % a if key == 'as' else '<%s>v' % a), cast(a, b)
    else:
        key = '?:'
        decl, stmt, v = '', '%s var r%d = (r%dc) ? w : v;' % ('var r%dc = true; ' % i + setup(a, 'w'), i, i), ternary(a, b)
    if '\x01' in decl:
        return decl, 'func ask%d() {\n%s\n%s\n}\n' % (i, sv, stmt), v, (key, a, b)
    return decl, 'func ask%d() {\n%s\n\x01%s\n}\n' % (i, sv, stmt), v, (key, a, b)


def asked(r, i=0):
    decl, func, v, key = ask(r, i)
    text = PRE + decl_fill(r) + decl + func + 'func main() {\n ask%d();\n}\n' % i
    return finish({'a.cxy': text}, 'a.cxy', ' '.join(key)) + (v, decl.replace('\x01', '') + func.replace('\x01', ''))
