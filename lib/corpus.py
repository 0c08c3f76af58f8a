"""Source texts the checks start from: the repository's own programs and a set
of small programs covering the language."""
import os
import re

import vp

TOK = re.compile(rb'"(?:[^"\\\n]|\\.)*"|[A-Za-z_]\w*|\d+|\s+|.', re.S)


def repo_files(max_size=20000):
    out = []
    for base in ('tests', 'src/cxy', 'docs', 'examples'):
        for d, ds, fs in os.walk(os.path.join(vp.REPO, base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.cxy') and not f.startswith('__'):
                    p = os.path.join(d, f)
                    if os.path.getsize(p) <= max_size:
                        out.append(p)
    return out


def own_files():
    d = os.path.join(vp.VERIF, 'corpus')
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.cxy')]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


class Mutator:
    """Token level mutations over a pool of sources."""

    def __init__(self, files):
        self.src = [TOK.findall(read(f)) for f in files]
        self.names = [os.path.basename(f) for f in files]
        self.tokens = [t for s in self.src for t in s if not t.isspace()]

    def tokens_mutant(self, r):
        k = r.randrange(len(self.src))
        t = list(self.src[k])
        ops = []
        for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
            if not t:
                break
            i, op = r.randrange(len(t)), r.randrange(6)
            ops.append(op)
            if op == 0:
                del t[i]
            elif op == 1:
                t[i] = r.choice(self.tokens)
            elif op == 2:
                t.insert(i, r.choice(self.tokens))
            elif op == 3:
                del t[i:i + r.randrange(1, 12)]
            elif op == 4:
                j = min(len(t), i + r.randrange(1, 12))
                t[i:i] = t[i:j]
            else:
                j = r.randrange(len(t))
                t[i], t[j] = t[j], t[i]
        return b''.join(t), '%s/tok%s' % (self.names[k], ''.join(map(str, ops)))

    def bytes_mutant(self, r):
        k = r.randrange(len(self.src))
        b = bytearray(b''.join(self.src[k])[:6000])
        for _ in range(r.choice([1, 2, 4, 16])):
            if not b:
                break
            i, op = r.randrange(len(b)), r.randrange(4)
            if op == 0:
                b[i] = r.randrange(256)
            elif op == 1:
                b.insert(i, r.choice([0x22, 0x27, 0x5c, 0x7b, 0x7d, 0x80, 0xff, 0xf0, 0x60, 0x23, 0x24, 0x0a]))
            elif op == 2:
                del b[i:i + r.randrange(1, 40)]
            else:
                b[i] ^= 1 << r.randrange(8)
        return bytes(b), '%s/bytes' % self.names[k]

    def cut_mutant(self, r):
        k = r.randrange(len(self.src))
        b = b''.join(self.src[k])
        n = r.randrange(len(b) + 1)
        return b[:n], '%s/cut' % self.names[k]
