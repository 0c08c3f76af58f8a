"""A second reading of Cxy text: what tokens a text consists of, written from
the language's token list, independent of lexer.c.

lex(text) -> (tokens, error) where a token is (name, begin, end, value), begin
and end byte offsets; error is the offset at which the text stops being
readable (None when all of it is)."""
import re

OPS = ('( ) [ ] { } @ # ! ~ . .. ... ? , : ; = == != => -> < <= << <<= > >= >> >>= + - * / % & ^ | && || ++ -- '
       '+= -= *= /= %= &= &. ^= |= ` #{ .[ #. ## !:').split()
NAMES = {
    '(': 'LParen', ')': 'RParen', '[': 'LBracket', ']': 'RBracket', '{': 'LBrace', '}': 'RBrace',
}
KEYWORDS = ('virtual auto true false null if else match for in is while break return yield continue func var const '
            'type native extern exception struct enum pub opaque catch raise async launch ptrof await delete discard '
            'switch case default defer macro void string range module import include cDefine cInclude cSources as asm '
            'from unsafe interface this This super class defined test __cc').split()
TYPES = 'i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 bool char wchar'.split()
_op = re.compile('|'.join(re.escape(o) for o in sorted(OPS, key=len, reverse=True)).encode())
_id = re.compile(rb'[A-Za-z_][A-Za-z0-9_]*')
_float = re.compile(rb'[0-9]+\.(?![.\[])[0-9]*(?:e[+-]?[0-9]*)?')
_floatval = re.compile(rb'[0-9]+\.[0-9]*(?:e[+-]?[0-9]+)?')
_int = re.compile(rb'[0-9]+')
_based = re.compile(rb'0([box])')
_word = re.compile(rb'[^\s!-/:-@\[-^`{-~]*')
_space = re.compile(rb'[ \t\r\n\v\f]+')
BASE = {b'b': (2, b'01'), b'o': (8, b'01234567'), b'x': (16, b'0123456789abcdefABCDEF')}
ESC = {b'n': 10, b't': 9, b'v': 11, b'r': 13, b'a': 7, b'b': 8, b'$': 36, b'"': 34, b"'": 39, b'\\': 92}


def comment(s, i):
    """The end of the (nesting) comment whose text starts at i, None if it has no end."""
    n = 1
    while i < len(s):
        two = s[i:i + 2]
        if two == b'/*':
            n += 1
            i += 2
        elif two == b'*/':
            n -= 1
            i += 2
            if not n:
                return i
        else:
            i += 1
    return None


def text(s, i, fmt):
    """Reads the rest of a string; -> (offset, how) where how is 'end' at the
    closing quote, 'expr' at `${`, None when there is no end."""
    while i < len(s):
        c = s[i:i + 1]
        if c == b'"':
            return i, 'end'
        if c == b'\n':
            return i, None
        if c == b'\\':
            i += 2
        elif fmt and s[i:i + 2] == b'${':
            return i, 'expr'
        else:
            i += 1
    return len(s), None


def char(s):
    """The character a literal's text denotes, None if it is none."""
    if not s:
        return None
    if s[:1] == b'\\':
        e = s[1:2]
        if e in ESC and len(s) == 2:
            return ESC[e]
        if s == b'\\0':
            return 0
        return None
    try:
        t = s.decode('utf-8')
    except UnicodeDecodeError:
        return None
    return ord(t) if len(t) == 1 else None


def lex(s):
    out = []
    i = 0
    fmt = False        # inside the expressions of an f-string
    dot = False        # the last token was a '.' or an index after one, right before here
    while True:
        # white space and comments
        while True:
            m = _space.match(s, i)
            if m:
                i = m.end()
                dot = False
                continue
            if s[i:i + 2] == b'//':
                i = s.find(b'\n', i)
                if i < 0:
                    i = len(s)
                dot = False
                continue
            if s[i:i + 2] == b'/*':
                j = comment(s, i + 2)
                if j is None:
                    return out, i
                i = j
                dot = False
                continue
            break
        if i >= len(s):
            return out, None
        c = s[i:i + 1]
        if c == b'}' and fmt:
            j, how = text(s, i + 1, True)
            if how is None:
                return out, i
            if how == 'expr':
                out.append(('StringLiteral', i, j + 1, None))
                out.append(('LStrFmt', j + 2, j + 2, None))
                i = j + 2
            else:
                out.append(('StringLiteral', i, j + 1, None))
                out.append(('RString', j + 1, j + 1, None))
                i = j + 1
                fmt = False
            dot = False
            continue
        if s[i:i + 3] == b'"""':
            j = s.find(b'"""', i + 3)
            if j < 0:
                return out, i + 2
            out.append(('StringLiteral', i + 2, j + 1, None))
            i = j + 3
            dot = False
            continue
        if c == b'"':
            j, how = text(s, i + 1, False)
            if how is None:
                return out, i
            out.append(('StringLiteral', i, j + 1, None))
            i = j + 1
            dot = False
            continue
        if c == b"'":
            j = i + 1
            while j < len(s) and s[j:j + 1] not in (b"'", b'\n'):
                j += 2 if s[j:j + 1] == b'\\' else 1
            v = char(s[i + 1:j]) if s[j:j + 1] == b"'" else None
            if v is None:
                return out, i
            out.append(('CharLiteral', i, j + 1, v))
            i = j + 1
            dot = False
            continue
        if s[i:i + 2] == b'f"':
            if fmt:
                return out, i
            fmt = True
            out.append(('LString', i, i + 1, None))
            j, how = text(s, i + 2, True)
            if how is None:
                return out, i + 1
            out.append(('StringLiteral', i + 1, j + 1, None))
            if how == 'expr':
                out.append(('LStrFmt', j + 2, j + 2, None))
                i = j + 2
            else:
                out.append(('RString', j + 1, j + 1, None))
                i = j + 1
                fmt = False
            dot = False
            continue
        m = _id.match(s, i)
        if m:
            w = m.group().decode()
            out.append((w if w in KEYWORDS or w in TYPES else 'Ident', i, m.end(), None))
            i = m.end()
            dot = False
            continue
        if c.isdigit():
            m = _based.match(s, i)
            if m:
                base, digits = BASE[m.group(1)]
                w = _word.match(s, m.end()).group()
                # `_` is part of a word, too
                if not w or any(bytes([x]) not in [bytes([d]) for d in digits] for x in w):
                    return out, i
                v = int(w, base)
                if v >= 1 << 64:
                    return out, i
                out.append(('IntLiteral', i, m.end() + len(w), v))
                i = m.end() + len(w)
                dot = False
                continue
            m = None if dot else _float.match(s, i)
            if m:
                out.append(('FloatLiteral', i, m.end(), float(_floatval.match(s, i).group())))
                i = m.end()
                dot = False
                continue
            m = _int.match(s, i)
            v = int(m.group())
            if v >= 1 << 64:
                return out, i
            out.append(('IntLiteral', i, m.end(), v))
            i = m.end()
            continue
        m = _op.match(s, i)
        if m:
            w = m.group().decode()
            out.append((w, i, m.end(), None))
            i = m.end()
            dot = w == '.'
            continue
        return out, i


def places(s, offs):
    """row and column (1 based, in bytes) of each of the rising offsets"""
    out = {}
    row, start, k = 1, 0, 0
    for o in sorted(set(offs)):
        while True:
            j = s.find(b'\n', k, o)
            if j < 0:
                break
            row += 1
            start = k = j + 1
        k = max(k, start)
        out[o] = (row, o - start + 1)
    return out


# ---------------------------------------------------------------- texts

LETTERS = 'abefnotxzABEFXZ_019'


def ident(r):
    w = r.choice(LETTERS.replace('0', '').replace('1', '').replace('9', '')) + ''.join(
        r.choice(LETTERS) for _ in range(r.choice([0, 1, 2, 5, 12])))
    if r.random() < 0.2:
        w = r.choice(KEYWORDS + TYPES) + r.choice(['', '_', 'x', '0'])
    return w


def integer(r):
    v = r.choice([0, 1, 9, 10, 255, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1,
                  r.getrandbits(r.randint(1, 64))])
    return r.choice([str(v), str(v), hex(v), '0x%X' % v, '0x%016x' % v, bin(v), oct(v), '0' + str(v)])


def number(r):
    if r.random() < 0.5:
        return integer(r)
    a = str(r.choice([0, 1, 12, 123456789, r.getrandbits(40)]))
    b = r.choice(['', '0', '5', '25', '0000001', '123456789012345678901', str(r.getrandbits(30))])
    e = r.choice(['', '', '', 'e5', 'e+10', 'e-300', 'e308', 'e0', 'e-7'])
    return a + '.' + b + e


def chunk(r):
    """The inside of a string."""
    out = []
    for _ in range(r.choice([0, 0, 1, 2, 4, 9])):
        out.append(r.choice(['a', ' ', 'Z9', '$', '{', '}', '//', '/*', '*/', "'", '\\n', '\\"', '\\\\', '\\t', '\\$', '#',
                             '${'[:1], '\u00e9', '\u6f22', '\U0001f600', '\\0', '.', 'f']))
    return ''.join(out)


def string(r):
    k = r.random()
    if k < 0.2:
        t = chunk(r).replace('"', "'")
        t = ''.join(x + r.choice(['', '', '\n', '"', ' ""']) if x in ' .aZ' else x for x in t)
        while t.endswith('"'):
            t = t[:-1]
        return '"""' + t + '"""'
    return '"' + chunk(r) + '"'


def interpolated(r, depth):
    out = 'f"' + chunk(r)
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        inner = ''.join(piece(r, depth + 1, True) + r.choice(['', ' ']) for _ in range(r.choice([1, 1, 3])))
        out += '${' + inner + '}' + chunk(r)
    return out + '"'


def character(r):
    return "'" + r.choice(['a', 'Z', '0', ' ', '"', '\\n', '\\t', '\\\\', "\\'", '\\"', '\\0', '\\r', '\\v', '\\a', '\\b',
                           '\\$', '\u00e9', '\u6f22', '\U0001f600', '{', '/']) + "'"


def remark(r, depth=0):
    if r.random() < 0.4:
        return '//' + r.choice(['', ' x', '/* ', '"', "'", ' */', ' \u6f22', '\\', '//']) + '\n'
    out = '/*'
    for _ in range(r.choice([0, 1, 2, 5])):
        out += r.choice(['*', ' x', '\n', '"', "'", '//', ' /', '**', ' \u00e9', '\n\n'])
        if r.random() < 0.2 and depth < 3:
            out += ' ' + remark(r, 3 if r.random() < 0.5 else depth + 1).replace('//', '/ ')
    # no accidental comment marks at the seams
    return out + ' */'


def piece(r, depth=0, infmt=False):
    k = r.random()
    if k < 0.33:
        ops = OPS if not infmt else [o for o in OPS if '{' not in o and '}' not in o]
        return r.choice(ops)
    if k < 0.5:
        return ident(r)
    if k < 0.55:
        return r.choice(KEYWORDS + TYPES)
    if k < 0.68:
        return number(r)
    if k < 0.75:
        return string(r)
    if k < 0.8:
        return character(r)
    if k < 0.85 and not infmt:
        return interpolated(r, depth)
    if k < 0.89:
        return r.choice(['x.0', 't.0.1', 'a.1.2.3', '0..1', '1...', 'x.[', '1.[', '0..10.5', '.5', '..5', '1.5.2', 'a.b.0',
                         '0.0', '1.e5', '1..2', '12.0.0'])
    if k < 0.94:
        return remark(r)
    if k < 0.97:
        return r.choice([' ', '\n', '\t', '\r\n', '\n\n  ', ''])
    return r.choice('()[]' if infmt else '()[]{}')


def source(r, n=None):
    n = n or r.choice([1, 2, 3, 5, 12, 40])
    gap = r.choice([0, 0.5, 1])
    out = []
    for _ in range(n):
        out.append(piece(r))
        if r.random() < gap:
            out.append(r.choice([' ', ' ', '\n', '  ', '\t', '\n\n']))
    s = ''.join(out).encode('utf-8')
    if r.random() < 0.12:
        # something unreadable, too
        bad = r.choice([b'"abc', b"'ab'", b"''", b'0x', b'0b2', b'0o8', b'0xg', b'$', b'\\', b'\x01', b'\xc3\xa9', b'/* x',
                        b'"""x"', b"'\\q'", b'18446744073709551616', b'0x1ffffffffffffffff', b'0b', b"'a", b'f"x',
                        b'f"${a', b'99999999999999999999999', b'0b_', b'0x1_', b'"a\nb"'])
        k = r.randrange(len(s) + 1)
        s = s[:k] + bad + s[k:]
    if r.random() < 0.85:
        s += b'\n'
    return s
