"""Programs that drive String, __string, the output streams and println, and the
Python models of what they print (same generator of random histories on both
sides, see coll.py)."""
import coll
from coll import Lcg, b

WORDS = ['a', ' ', 'ab', 'aab', '\t', ' \n', 'héé', '日本', 'x y', 'aabaab', 'z', '-', '0', '😀', 'Ab', 'ba', '  ', 'q\r', '%s', '{d}', '%']
ESC = {'\t': '\\t', '\n': '\\n', '\r': '\\r', '"': '\\"', '\\': '\\\\', '\0': '\\0'}


def lit(s):
    return '"' + ''.join(ESC.get(c, c) for c in s) + '"'


def esc(bs):
    return ' '.join('%d' % c for c in bs)


PRE = coll.PRELUDE.split('class Tok')[0] + '''
func word(i: u64): string {
  switch (i) {
%s
    default => return "end";
  }
}
func bytes(s: &const String) { for (const i: 0`u64..s.size()) { print(" "); const ch = <i32>s.[<u32>i]; stdout << (ch & 255); } println(""); }
''' % '\n'.join('    case %d`u64 => return %s;' % (i, lit(w)) for i, w in enumerate(WORDS))
PRE = PRE.replace('var live: i64 = 0;', '')
MAIN = coll.MAIN.replace('    println("live ", live);\n', '')
SPACE = b' \t\n\v\f\r'


def sgn(x):
    return (x > 0) - (x < 0)


def order(x, y):
    """String.compare: shorter first, then the characters (signed)"""
    x, y = [(len(z), [c - 256 if c > 127 else c for c in z]) for z in (x, y)]
    return (x > y) - (x < y)


def opt(i):
    return 'none' if i < 0 else str(i)


STR_OPS = [
    # weight, cxy, python (s list of 3 bytearrays, i, j indices, w index of word, n number, out)
    (5, 's << word(w);', lambda S, i, j, w, n, o: S[i].extend(W(w))),
    (1, 's << n;', lambda S, i, j, w, n, o: S[i].extend(b'%d' % n)),
    (1, 's << ((<i64>n) - 50`i64);', lambda S, i, j, w, n, o: S[i].extend(b'%d' % (n - 50))),
    (1, 's << (n > 50`u64);', lambda S, i, j, w, n, o: S[i].extend(b(n > 50).encode())),
    (1, "s << 'q';", lambda S, i, j, w, n, o: S[i].extend(b'q')),
    (1, 's << (<wchar><u32>(n * 300`u64 + 1`u64));', lambda S, i, j, w, n, o: S[i].extend(chr(n * 300 + 1).encode('utf-8', 'surrogatepass'))),
    (1, 's << ((<f64>n) * 0.25);', lambda S, i, j, w, n, o: S[i].extend(b'%g' % (n * .25))),
    (2, 's << t;', lambda S, i, j, w, n, o: S[i].extend(bytes(S[j]))),
    (1, 's << t.__str();', lambda S, i, j, w, n, o: S[i].extend(bytes(S[j]))),
    (1, 's.append(word(w) !: ^const char, strlen(word(w)));', lambda S, i, j, w, n, o: S[i].extend(W(w))),
    (1, 'if (t.size() > 0`u64) { const a = rnd(t.size()); const k = rnd(t.size() - a + 1`u64); s << t.substr(a, <i64>k); }', None),
    (2, 's.trim();', lambda S, i, j, w, n, o: S[i].__setitem__(slice(None), bytes(S[i]).strip(SPACE))),
    (1, 's.trimLeft();', lambda S, i, j, w, n, o: S[i].__setitem__(slice(None), bytes(S[i]).lstrip(SPACE))),
    (1, 's.trimRight();', lambda S, i, j, w, n, o: S[i].__setitem__(slice(None), bytes(S[i]).rstrip(SPACE))),
    (1, 's.clear();', lambda S, i, j, w, n, o: S[i].clear()),
    (1, 's.reserve(n); println("room ", s.capacity() >= s.size());', lambda S, i, j, w, n, o: o.append('room true')),
    (2, 'if (s.size() > 0`u64) s.resize(rnd(s.size() + 1`u64));', None),
    (1, 's.clear(); s << word(w) << n << word(w);', lambda S, i, j, w, n, o: S[i].__setitem__(slice(None), W(w) + b'%d' % n + W(w))),
]
STR_QUERIES = [
    ('if (var z = s.indexOf(\'a\')) println("io ", *z); else println("io none");', lambda s, t, w, n: 'io ' + opt(s.find(b'a'))),
    ('if (var z = s.rIndexOf(\'b\')) println("ri ", *z); else println("ri none");', lambda s, t, w, n: 'ri ' + opt(s.rfind(b'b'))),
    ('println(s == t, s != t, s < t, s <= t, s > t, s >= t);', lambda s, t, w, n: ''.join(b(x) for x in (
        s == t, s != t, order(s, t) < 0, order(s, t) <= 0, order(s, t) > 0, order(s, t) >= 0))),
    ('println(s == word(w), s != word(w), s < word(w), s <= word(w), s > word(w), s >= word(w));', lambda s, t, w, n: ''.join(b(x) for x in (
        s == W(w), s != W(w), order(s, W(w)) < 0, order(s, W(w)) <= 0, order(s, W(w)) > 0, order(s, W(w)) >= 0))),
    ('println("sw ", s.startswith(word(w)), s.endswith(word(w)));', lambda s, t, w, n: 'sw ' + b(s.startswith(W(w))) + b(s.endswith(W(w)))),
    ('println("st ", s.__str().startswith(t.__str()), s.__str().endswith(t.__str()));', lambda s, t, w, n: 'st ' + b(s.startswith(t)) + b(s.endswith(t))),
    ('if (var z = s.__str().find(__string(word(w)))) println("f ", *z); else println("f none");', lambda s, t, w, n: 'f ' + opt(s.find(W(w)))),
    ('if (var z = s.__str().rfind(__string(word(w)))) println("rf ", *z); else println("rf none");', lambda s, t, w, n: 'rf ' + opt(s.rfind(W(w)))),
    ('println("t ", s.__str().trim().size(), " ", s.__str().trimLeft().size(), " ", s.__str().trimRight().size());',
     lambda s, t, w, n: 't %d %d %d' % (len(s.strip(SPACE)), len(s.lstrip(SPACE)), len(s.rstrip(SPACE)))),
    ('println("tr ", s.__str().trim() == t.__str().trim(), " ", s.empty(), " ", s.str() == null || strlen(s.str()) == s.size());',
     lambda s, t, w, n: 'tr %s %s true' % (b(s.strip(SPACE) == t.strip(SPACE)), b(not s))),
    ('println("h ", hash(&s));', lambda s, t, w, n: 'h %d' % coll.fnv(s)),
    ('println("hs ", hash(&z1(s)));', lambda s, t, w, n: 'hs %d' % coll.fnv(s)),
    ('{ var c = 0`i64; for (const x, at: s) { const xi = <i32>x; const y = <i64>(xi & 255); const z = <i64>at; c = (c * 31`i64 + y + z) % 1000003`i64; } println("it ", c); }', None),
    ('{ var q = String(); q << n << word(w); println("n ", q.__str().toi[i64](), " ", q.size()); }', None),
    ('{ var q = String(); q << ((<f64>n) * 0.5); println("d ", q.__str().tof[f64]()); }', lambda s, t, w, n: 'd %g' % (n * .5)),
]
STR_QUERIES = [q for q in STR_QUERIES if not q[0].startswith('println("hs') and 'toi' not in q[0]]


def W(w):
    return WORDS[w].encode()


def strings(r):
    ops = []
    for x in STR_OPS:
        ops += [x] * x[0]
    r.shuffle(ops)
    ops = ops[:r.randint(8, len(ops))]
    nops = r.choice([15, 50, 120])
    reset = 'if (s.size() > 300`u64) s.clear();'
    text = PRE + '''
func change(s: String, t: String, op: u64, w: u64, n: u64) {
  %s
  switch (op) {
%s
    default => println("?");
  }
}
func ask(s: &const String, t: &const String, op: u64, w: u64, n: u64) {
  switch (op) {
%s
    default => println("?");
  }
}
func history(seed: u64) {
  S = seed;
  var a = String();
  var b = String("start ");
  var c = String("");
  for (const i: 0`i32..%d`i32) {
    const x = rnd(3`u64);
    const y = rnd(3`u64);
    const op = rnd(%d`u64);
    const w = rnd(%d`u64);
    const n = rnd(100`u64);
    var s = (x == 0`u64) ? a : ((x == 1`u64) ? b : c);
    var t = (y == 0`u64) ? a : ((y == 1`u64) ? b : c);
    change(s, t, op, w, n);
    bytes(&s);
    ask(&s, &t, rnd(%d`u64), w, n);
  }
}
''' % (reset, '\n'.join('    case %d`u64 => { %s }' % (i, x[1]) for i, x in enumerate(ops)),
       '\n'.join('    case %d`u64 => %s' % (i, x[0] if x[0].startswith('{') else '{ ' + x[0] + ' }') for i, x in enumerate(STR_QUERIES)),
       nops, len(ops), len(WORDS), len(STR_QUERIES)) + MAIN

    def model(seeds):
        out = []
        for sd in seeds:
            out.append('# %d' % sd)
            R = Lcg(sd)
            S = [bytearray(), bytearray(b'start '), bytearray()]
            for _ in range(nops):
                x, y, op, w, n = R(3), R(3), R(len(ops)), R(len(WORDS)), R(100)
                if len(S[x]) > 300:
                    S[x].clear()
                o = ops[op]
                if o[2]:
                    o[2](S, x, y, w, n, out)
                elif 'substr' in o[1]:
                    t = bytes(S[y])
                    if t:
                        a = R(len(t))
                        k = R(len(t) - a + 1)
                        S[x].extend(t[a:a + k])
                elif S[x]:
                    del S[x][R(len(S[x]) + 1):]
                out.append(''.join(' %d' % c for c in S[x]))
                q = STR_QUERIES[R(len(STR_QUERIES))]
                s, t = bytes(S[x]), bytes(S[y])
                if q[1]:
                    out.append(q[1](s, t, w, n))
                else:
                    c = 0
                    for i, ch in enumerate(s):
                        c = (c * 31 + ch + i) % 1000003
                    out.append('it %d' % c)
        return out
    return 'strings', text, model


coll.MAKERS['strings'] = strings
