"""Programs that drive the collections of the standard library through
pseudo-random histories: the program and the Python model draw from the same
linear congruential generator, so the model knows what every step has to print.
One compiled program runs many histories (the seeds are its arguments)."""

M64 = (1 << 64) - 1

PRELUDE = '''extern func atoi(s: string): i32
var S: u64 = 1;
var live: i64 = 0;
func rnd(n: u64): u64 { S = S * 6364136223846793005`u64 + 1442695040888963407`u64; return (S >> 33`u64) % n; }
class Tok {
  id: i64;
  func `init`(id: i64) { this.id = id; live = live + 1`i64; }
  func `deinit`() { live = live - 1`i64; }
  const func `==`(o: &const Tok) => id == o.id
}
struct Pt {
  x: i32; y: string;
  const func `==`(o: &const Pt) => x == o.x
  const func `hash`(): u32 => <u32>(x * 31)
}
enum Col { Red, Green, Blue, White, Black }
class Acc { n: i64 = 0; sum: i64 = 0; func `init`() {} func add(v: i64) { n = n + 1`i64; sum = (sum + v) % 1000003`i64; } }
'''

MAIN = '''func main(args: [string]) {
  for (const s: atoi(args.[1])..atoi(args.[2])) {
    println("# ", s);
    history(<u64>s);
    println("live ", live);
  }
}
'''


class Lcg:
    def __init__(self, seed):
        self.s = seed & M64

    def __call__(self, n):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) & M64
        return (self.s >> 33) % n


# kind: (cxy type, constructor of index i:u64, number of a value of it as i64, how it prints, max index or None)
KINDS = {
    'i32': ('i32', '<i32>i - 7', '<i64>%s', lambda i: i - 7, None),
    'u64': ('u64', 'i * 11400714819323198485`u64', '<i64>(%s %% 1000`u64)', lambda i: (i * 11400714819323198485 & M64) % 1000, None),
    'u8': ('u8', '<u8>i', '<i64>%s', lambda i: i, 200),
    'i16': ('i16', '<i16>i - 20`i16', '<i64>%s', lambda i: i - 20, 3000),
    'String': ('String', 'word(i)', '<i64>hash(&%s)', None, None),
    'Pt': ('Pt', 'Pt{x: <i32>i, y: "p"}', '<i64>%s.x', lambda i: i, None),
    'Col': ('Col', None, '<i64>%s', lambda i: i, 5),
    'Tok': ('Tok', 'Tok(<i64>i)', '%s.id', lambda i: i, None),
    'f64': ('f64', '<f64>i + 0.5', '<i64>(%s * 2.0)', lambda i: 2 * i + 1, None),
    'Vec': ('Vector[i32]', None, 'total(%s)', lambda i: sum(3 * j + i for j in range(i % 5)), None),
    'bool': ('bool', 'i == 1`u64', '<i64>%s', lambda i: int(i == 1), 2),
}


def word(i):
    return 'w%d' % i * (1 + i % 3)


def fnv(b, h=0x01000193):
    for c in b:
        h = (h ^ c) * 0x01000193 & 0xffffffff
    return h


def num(kind, i):
    if kind == 'String':
        return fnv(word(i).encode())
    return KINDS[kind][3](i)


def helpers(kinds):
    out = []
    if 'String' in kinds:
        out.append('func word(i: u64): String { var s = String(); for (const k: 0..(1`u64 + i % 3`u64)) s << "w" << i; return s; }')
    if 'Vec' in kinds:
        out.append('func total(v: &const Vector[i32]): i64 { var t: i64 = 0; for (const x, _: v) t = t + <i64>x; return t; }\n'
                   'func mkVec(i: u64): Vector[i32] { var v = Vector[i32](); for (const j: 0`u64..(i % 5`u64)) v.push(<i32>(j * 3`u64 + i)); return v; }')
    for k in sorted(set(kinds)):
        t, mk, nm, _, _ = KINDS[k]
        if k == 'Vec':
            out.append('func num%s(v: &const %s): i64 { return %s; }' % (k, t, nm % 'v'))
            continue
        if k == 'Col':
            out.append('func mkCol(i: u64): Col { switch (i) { case 0`u64 => return Col.Red; case 1`u64 => return Col.Green; '
                       'case 2`u64 => return Col.Blue; case 3`u64 => return Col.White; default => return Col.Black; } }')
        else:
            out.append('func mk%s(i: u64): %s { return %s; }' % (k, t, mk))
        out.append('func num%s(v: &const %s): i64 { return %s; }' % (k, t, nm % 'v'))
    return '\n'.join(out) + '\n'


def b(v):
    return 'true' if v else 'false'


# ------------------------------------------------------------ HashMap
def hashmap(r):
    k = r.choice(['i32', 'u64', 'u8', 'i16', 'String', 'Pt', 'String', 'i32'])
    v = r.choice(['i32', 'i16', 'String', 'Tok', 'Pt', 'f64', 'Tok', 'bool', 'Vec'])
    hasher = r.choice(['', '', 'one', 'two', 'high'])
    uni = min(r.choice([4, 9, 40, 150]), KINDS[k][4] or 10 ** 9)
    vuni = KINDS[v][4] or 1000
    cap = r.choice(['', '', '0`u64', '1`u64', '7`u64', '60`u64'])
    nops = r.choice([20, 60, 200])
    mix = [r.randint(2, 6), r.randint(0, 2), r.randint(0, 2), r.randint(1, 5)]
    kt, vt = KINDS[k][0], KINDS[v][0]
    text = 'import { HashMap } from "stdlib/hash.cxy"\nimport { Vector } from "stdlib/vector.cxy"\n' + PRELUDE + helpers([k, v])
    ty = 'HashMap[%s, %s]' % (kt, vt)
    if hasher:
        text += 'struct Hx { func `()`(val: &const %s): u32 => %s }\n' % (
            kt, {'one': '7`u32', 'two': '<u32>(num%s(val) & 1`i64)' % k, 'high': '4294967290`u32 + <u32>(num%s(val) & 3`i64)' % k}[hasher])
        ty = 'HashMap[%s, %s, Hx]' % (kt, vt)
    tot = sum(mix) + 2
    a, c1, c2, c3 = mix[0], mix[0] + mix[1], sum(mix[:3]), sum(mix)
    text += '''func step(m: %(ty)s) {
  const op = rnd(%(tot)d`u64);
  const k = rnd(%(uni)d`u64);
  const v = rnd(%(vuni)d`u64);
  if (op < %(a)d`u64) { println("i ", m.insert(mk%(k)s(k), mk%(v)s(v))); }
  else if (op < %(c1)d`u64) { println("k ", m.insert(mk%(k)s(k), mk%(v)s(v), false)); }
  else if (op < %(c2)d`u64) { m.[mk%(k)s(k)] = mk%(v)s(v); }
  else if (op < %(c3)d`u64) { m.remove(mk%(k)s(k)); }
  else if (op == %(c3)d`u64) {
    const how = rnd(6`u64);
    if (how == 0`u64) m.clear();
    else {
      var acc = Acc();
      if (how < 3`u64) { for (const x, y: m) acc.add(num%(k)s(&x) * 7`i64 + num%(v)s(&y)); }
      else if (how < 5`u64) { m.each((x: %(kt)s, y: %(vt)s) => { acc.add(num%(k)s(&x) * 7`i64 + num%(v)s(&y)); }); }
      else {
        var out = m.map[i64]((x: &const %(kt)s, y: &const %(vt)s) => num%(k)s(x) * 7`i64 + num%(v)s(y));
        for (const z, _: out) acc.add(z);
      }
      println("it ", acc.n, " ", acc.sum);
    }
  }
  if (var z = m.[mk%(k)s(k)]) println("g ", num%(v)s(&(*z)));
  else println("g none");
}
func look(m: %(ty)s) {
  const q = rnd(%(uni)d`u64);
  println(m.size(), " ", m.empty(), " ", m.contains(mk%(k)s(q)));
}
func final(m: %(ty)s) {
  for (const q: 0`i32..%(uni)d`i32) {
    if (var z = m.get(mk%(k)s(<u64>q))) println(q, " ", num%(v)s(&(*z)));
  }
}
func history(seed: u64) {
  S = seed;
  var m = %(ty)s(%(cap)s);
  for (const i: 0`i32..%(nops)d`i32) { step(m); look(m); }
  final(m);
}
''' % dict(locals()) + MAIN

    def model(seeds):
        out = []
        for s in seeds:
            out.append('# %d' % s)
            R = Lcg(s)
            m = {}
            for _ in range(nops):
                op, kk, vv = R(tot), R(uni), R(vuni)
                if op < a:
                    out.append('i ' + b(kk not in m))
                    m[kk] = vv
                elif op < c1:
                    out.append('k ' + b(kk not in m))
                    m.setdefault(kk, vv)
                elif op < c2:
                    m[kk] = vv
                elif op < c3:
                    m.pop(kk, None)
                elif op == c3:
                    how = R(6)
                    if how == 0:
                        m.clear()
                    else:
                        out.append('it %d %d' % (len(m), addup(num(k, x) * 7 + num(v, y) for x, y in m.items())))
                out.append('g ' + (str(num(v, m[kk])) if kk in m else 'none'))
                q = R(uni)
                out.append('%d %s %s' % (len(m), b(not m), b(q in m)))
            for q in range(uni):
                if q in m:
                    out.append('%d %d' % (q, num(v, m[q])))
            out.append('live 0')
        return out
    return 'HashMap[%s,%s] %s %s' % (k, v, hasher, cap), text, model


def addup(it):
    """sums of small numbers do not depend on their order; C's % truncates"""
    t = 0
    for v in it:
        t += v
    return (abs(t) % 1000003) * (1 if t >= 0 else -1)


# ------------------------------------------------------------ HashSet
def hashset(r):
    k = r.choice(['i32', 'u64', 'u8', 'i16', 'String', 'Pt', 'String'])
    hasher = r.choice(['', '', 'one', 'two'])
    uni = min(r.choice([4, 9, 40, 150]), KINDS[k][4] or 10 ** 9)
    nops = r.choice([20, 60, 200])
    kt = KINDS[k][0]
    text = 'import { HashSet } from "stdlib/hash.cxy"\n' + PRELUDE + helpers([k])
    ty = 'HashSet[%s]' % kt
    if hasher:
        text += 'struct Hx { func `()`(val: &const %s): u32 => %s }\n' % (kt, {'one': '7`u32', 'two': '<u32>(num%s(val) & 1`i64)' % k}[hasher])
        ty = 'HashSet[%s, Hx]' % kt
    cap = r.choice(['', '0`u64', '20`u64'])
    w = r.randint(4, 9)
    text += '''func step(m: %(ty)s) {
  const op = rnd(14`u64);
  const k = rnd(%(uni)d`u64);
  if (op < %(w)d`u64) m.insert(mk%(k)s(k));
  else if (op < 11`u64) m.remove(mk%(k)s(k));
  else if (op == 11`u64) {
    var acc = Acc();
    for (const x: m) acc.add(num%(k)s(&x));
    println("it ", acc.n, " ", acc.sum);
  }
  else if (op == 12`u64) {
    var acc = Acc();
    m.each((x: %(kt)s) => { acc.add(num%(k)s(&x)); });
    println("it ", acc.n, " ", acc.sum);
  }
  else if (rnd(5`u64) == 0`u64) m.clear();
  const q = rnd(%(uni)d`u64);
  println(m.size(), " ", m.empty(), " ", m.contains(mk%(k)s(k)), " ", m.contains(mk%(k)s(q)));
}
func history(seed: u64) {
  S = seed;
  var m = %(ty)s(%(cap)s);
  for (const i: 0`i32..%(nops)d`i32) step(m);
}
''' % dict(locals()) + MAIN

    def model(seeds):
        out = []
        for s in seeds:
            out.append('# %d' % s)
            R = Lcg(s)
            m = set()
            for _ in range(nops):
                op, kk = R(14), R(uni)
                if op < w:
                    m.add(kk)
                elif op < 11:
                    m.discard(kk)
                elif op < 13:
                    out.append('it %d %d' % (len(m), addup(num(k, x) for x in m)))
                elif R(5) == 0:
                    m.clear()
                q = R(uni)
                out.append('%d %s %s %s' % (len(m), b(not m), b(kk in m), b(q in m)))
            out.append('live 0')
        return out
    return 'HashSet[%s] %s' % (k, hasher), text, model


# ------------------------------------------------------------ Vector
def vector(r):
    k = r.choice(['i32', 'u8', 'i16', 'String', 'Pt', 'Tok', 'f64', 'String', 'Tok'])
    t = KINDS[k][0]
    uni = min(KINDS[k][4] or 30, 30)
    nops = r.choice([20, 60, 150])
    cap = r.choice(['', '', '0`u64', '1`u64', '2`u64', '3`u64'])
    w = r.randint(5, 9)
    prints = k in ('i32', 'u8', 'i16', 'f64')
    eq = k in ('i32', 'u8', 'i16', 'String', 'Pt', 'Tok')
    destr = k in ('String', 'Tok')
    text = 'import { Vector } from "stdlib/vector.cxy"\n' + PRELUDE + helpers([k])
    show = 'println(m);' if prints else ''
    idx = ('if (var z = m.indexOf(mk%s(v))) println("at ", *z); else println("at none");' % k) if eq else ''
    text += '''func step(m: Vector[%(t)s]) {
  const op = rnd(24`u64);
  const v = rnd(%(uni)d`u64);
  if (op < %(w)d`u64) m.push(mk%(k)s(v));
  else if (op < 11`u64) { if (!m.empty()) { var x = m.pop(); println("p ", num%(k)s(&x)); } }
  else if (op < 13`u64) { if (!m.empty()) { var x = m.shift(); println("s ", num%(k)s(&x)); } }
  else if (op < 15`u64) { if (m.size() > 0`u64) { const at = <i32>rnd(m.size()); m.[at] = mk%(k)s(v); println("w ", at); } }
  else if (op < 17`u64) { if (m.size() > 0`u64) { const at = <i32>rnd(m.size()); println("r ", num%(k)s(&m.[at])); } }
  else if (op == 17`u64) { for (const x, i: m) println("it ", i, " ", num%(k)s(&x)); }
  else if (op == 18`u64) {
    var f = m.filter((x: %(t)s) => num%(k)s(&x) %% 2`i64 == 0`i64);
    println("f ", f.size());
    m.each((x: %(t)s) => { println("e ", num%(k)s(&x)); });
  }
  else if (op == 19`u64) { println("m ", m.map[i64]((x: %(t)s) => num%(k)s(&x) + 1`i64)); }
  else if (op == 20`u64) { println("a ", m.accumulate((a: i64, x: %(t)s) => a + num%(k)s(&x), 5`i64)); }
  else if (op == 21`u64) { const n = rnd(m.size() + 4`u64); m.resize(n); println("z ", m.size(), " ", m.capacity()); }
  else if (op == 22`u64) { m.shrink(); println("h ", m.capacity()); }
  else {
    if (var z = m.find((x: %(t)s) => num%(k)s(&x) > 9`i64)) { println("d ", num%(k)s(&(*z))); } else println("d none");
    %(idx)s
    %(show)s
  }
}
func history(seed: u64) {
  S = seed;
  var m = Vector[%(t)s](%(cap)s);
  for (const i: 0`i32..%(nops)d`i32) { step(m); println(m.size(), " ", m.empty()); }
  for (const x, i: m) println("end ", i, " ", num%(k)s(&x));
}
''' % dict(locals()) + MAIN

    def model(seeds):
        out = []
        for s in seeds:
            out.append('# %d' % s)
            R = Lcg(s)
            m = []
            N = lambda i: num(k, i)
            for _ in range(nops):
                op, v = R(24), R(uni)
                if op < w:
                    m.append(v)
                elif op < 11:
                    if m:
                        out.append('p %d' % N(m.pop()))
                elif op < 13:
                    if m:
                        out.append('s %d' % N(m.pop(0)))
                elif op < 15:
                    if m:
                        at = R(len(m))
                        m[at] = v
                        out.append('w %d' % at)
                elif op < 17:
                    if m:
                        out.append('r %d' % N(m[R(len(m))]))
                elif op == 17:
                    out += ['it %d %d' % (i, N(x)) for i, x in enumerate(m)]
                elif op == 18:
                    out.append('f %d' % sum(1 for x in m if N(x) % 2 == 0))
                    out += ['e %d' % N(x) for x in m]
                elif op == 19:
                    out.append('m [%s]' % ', '.join(str(N(x) + 1) for x in m))
                elif op == 20:
                    out.append('a %d' % (5 + sum(N(x) for x in m)))
                elif op == 21:
                    n = R(len(m) + 4)
                    del m[n:]
                    out.append('z %d %d' % (len(m), n))
                elif op == 22:
                    out.append('h %d' % len(m))
                else:
                    z = [x for x in m if N(x) > 9]
                    out.append('d %d' % N(z[0]) if z else 'd none')
                    if eq:
                        out.append('at %d' % m.index(v) if v in m else 'at none')
                    if prints:
                        out.append('[%s]' % ', '.join(('%g' % (x + .5)) if k == 'f64' else str(N(x)) for x in m))
                out.append('%d %s' % (len(m), b(not m)))
            out += ['end %d %d' % (i, N(x)) for i, x in enumerate(m)]
            out.append('live 0')
        return out
    return 'Vector[%s] %s' % (k, cap), text, model


# ------------------------------------------------------------ List, Trie
def lists(r):
    n = r.choice([1, 2, 5, 30])
    nops = r.choice([30, 120])
    w = r.randint(5, 9)
    text = '''import { List } from "stdlib/list.cxy"
''' + PRELUDE + '''struct It { link: ^This = null; num: i64; used: bool = false; }
func history(seed: u64) {
  S = seed;
  var nodes: [It, %(n)d] = [%(init)s];
  var l = List[It]{};
  for (const i: 0`i32..%(nops)d`i32) {
    const op = rnd(16`u64);
    const k = rnd(%(n)d`u64);
    if (op < %(w)d`u64) {
      if (!nodes.[k].used) { nodes.[k].used = true; nodes.[k].num = <i64>rnd(1000`u64); l.push(ptrof nodes.[k]); }
    }
    else if (op < 13`u64) {
      var p = l.pop();
      if (p == null) println("p none");
      else { println("p ", p.num); p.used = false; }
    }
    else { for (const x: l) println("it ", x.num); }
    println(l.size(), " ", l.empty());
    if (!l.empty()) println(l.front().num, " ", l.back().num);
    else println(l.front() == null, " ", l.back() == null);
  }
}
''' % dict(n=n, nops=nops, w=w, init=', '.join(['It{num: 0`i64}'] * n)) + MAIN

    def model(seeds):
        out = []
        for s in seeds:
            out.append('# %d' % s)
            R = Lcg(s)
            used, nums, l = [False] * n, [0] * n, []
            for _ in range(nops):
                op, k = R(16), R(n)
                if op < w:
                    if not used[k]:
                        used[k], nums[k] = True, R(1000)
                        l.append(k)
                elif op < 13:
                    if l:
                        x = l.pop(0)
                        used[x] = False
                        out.append('p %d' % nums[x])
                    else:
                        out.append('p none')
                else:
                    out += ['it %d' % nums[x] for x in l]
                out.append('%d %s' % (len(l), b(not l)))
                out.append('%d %d' % (nums[l[0]], nums[l[-1]]) if l else 'true true')
            out.append('live 0')
        return out
    return 'List', text, model


def trie(r):
    k = r.choice(['i32', 'Tok', 'String', 'i16', 'Vec'])
    alpha = r.choice(['ab', 'abc', 'xyzw'])
    ml = r.choice([3, 6, 9])
    nops = r.choice([20, 80])
    t = KINDS[k][0]
    text = 'import { Trie } from "stdlib/trie.cxy"\nimport { Vector } from "stdlib/vector.cxy"\n' + PRELUDE + helpers([k]) + '''
func key(): String {
  var s = String();
  const n = 1`u64 + rnd(%(ml)d`u64);
  for (const i: 0..n) {
    const c = rnd(%(na)d`u64);
    switch (c) { %(cases)s default => { s << "%(last)s"; } }
  }
  return s;
}
func step(m: Trie[%(t)s]) {
  const op = rnd(3`u64);
  const k = key();
  const v = rnd(500`u64);
  if (op == 0`u64) {
    var known = false;
    if (var z = m.find(k.str())) known = true;
    if (!known) m.add(k.str(), mk%(k)s(v));
  }
  if (var z = m.find(k.str())) println(k, " ", num%(k)s(&(*z)));
  else println(k, " none");
}
func history(seed: u64) {
  S = seed;
  var m = Trie[%(t)s]();
  for (const i: 0`i32..%(nops)d`i32) step(m);
}
''' % dict(t=t, k=k, ml=ml, nops=nops, na=len(alpha), last=alpha[-1],
           cases=' '.join('case %d`u64 => { s << "%s"; }' % (i, a) for i, a in enumerate(alpha[:-1]))) + MAIN

    def model(seeds):
        out = []
        for s in seeds:
            out.append('# %d' % s)
            R = Lcg(s)
            m = {}
            for _ in range(nops):
                op = R(3)
                n = 1 + R(ml)
                w = ''.join(alpha[R(len(alpha))] for _ in range(n))
                v = R(500)
                if op == 0:
                    m.setdefault(w, v)
                out.append('%s %s' % (w, num(k, m[w]) if w in m else 'none'))
            out.append('live 0')
        return out
    return 'Trie[%s]' % k, text, model


MAKERS = {'hashmap': hashmap, 'hashset': hashset, 'vector': vector, 'list': lists, 'trie': trie}


def check(c, R, makers, n, histories, span=1):
    """judges n programs of the makers; every history is compared line by line"""
    import vp

    def one(k):
        if c.left() < 0:
            c.count('skipped for time')
            return
        which = makers[k % len(makers)]
        r = c.rng(which, k)
        name, text, model = MAKERS[which](r)
        first = 1 + r.randrange(10 ** 6)
        exp = model(range(first, first + histories))
        o = R.run(text, args=[str(first), str(first + histories)], timeout=60)
        files = {'a.cxy': text, 'expected.txt': '\n'.join(exp) + '\n', 'args.txt': '%d %d\n' % (first, first + histories)}
        if o.kind != 'ok':
            what = {'refused': 'a valid program is refused', 'cc': 'the generated C does not compile',
                    'crash': 'the compiler crashes', 'app': 'the program ends abnormally'}[o.kind]
            c.violation(which + '-' + o.kind, '%s: %s\n%s' % (name, what, o.detail), files)
            return
        got = o.out.split('\n')
        if got and got[-1] == '':
            got.pop()
        c.count('programs')
        c.count('steps compared', sum(len(x) for x in exp) and len(exp))
        for i in range(max(len(got), len(exp))):
            a = exp[i] if i < len(exp) else '<end>'
            g = got[i] if i < len(got) else '<end>'
            if a != g:
                seed = [x for x in exp[:i + 1] if x.startswith('# ')]
                c.violation(which, '%s history %s, line %d: expected %r, got %r (after %r)' % (
                    name, seed[-1] if seed else '', i, a, g, got[max(0, i - 6):i]), files)
                return
        h = []
        for x in exp + ['# ']:
            if x.startswith('# ') and h:
                c.case(name + '\n'.join(h), {'of': name, 'trace': h[:6]} if k < 2 and len(h) > 3 else None)
                h = []
            if not x.startswith('# '):
                h.append(x)

    for _ in vp.pmap(one, range(n)):
        pass
