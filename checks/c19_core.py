#!/usr/bin/env python3
"""C19: the compiler's own containers and text utilities agree with a model
over every history of operations."""
import glob
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp

KINDS = {'hmap': 4, 'htable': 3, 'array': 2, 'sb': 4, 'strpool': 1, 'mempool': 1, 'format': 6, 'utils': 4}
SAN = ['-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=function']


def build(d):
    src = os.path.join(vp.REPO, 'src/cxy')
    inc = ['-I', src]
    jobs = [['clang', '-std=gnu11'] + SAN + inc + ['-c', f, '-o', os.path.join(d, os.path.basename(f) + '.o')]
            for f in sorted(glob.glob(os.path.join(src, 'core/*.c')))]
    jobs.append(['clang++', '-std=gnu++20'] + SAN + inc + ['-c', os.path.join(vp.VERIF, 'harness/core_model.cpp'),
                                                           '-o', os.path.join(d, 'model.o')])

    def one(cmd):
        return vp.run(cmd, timeout=300)
    for cmd, res in zip(jobs, vp.pmap(lambda j: (j, one(j)), jobs)):
        cmd, res = res
        if res.rc:
            raise vp.HarnessError('%s\n%s' % (' '.join(cmd), res.text[-2000:]))
    exe = os.path.join(d, 'model')
    objs = sorted(glob.glob(os.path.join(d, '*.o')))
    res = vp.run(['clang++', '-fsanitize=address,undefined', '-no-pie', '-Wl,--unresolved-symbols=ignore-all'] + objs +
                 ['-o', exe], timeout=300)
    if res.rc:
        raise vp.HarnessError(res.text[-2000:])
    return exe


def main():
    c = vp.Check('C19', rule='a case is one seeded history of operations on one container or utility, every step '
                             'compared with a model; distinct by kind and seed',
                 assumptions=['clang 18 address and undefined behaviour sanitizers', 'the models: std::map, std::vector, '
                              'std::string and a second formatter in harness/core_model.cpp'])
    d = vp.workdir()
    exe = build(d)
    base = int(os.environ.get('VERIF_SEED', '1')) * 1000003
    chunks = []
    for k, w in KINDS.items():
        per = 150 * w
        for i in range(c.scale(15, 400)):
            chunks.append((k, base + i * per, per))

    def one(job):
        if c.left() < 0:
            c.count('skipped for time')
            return
        kind, first, n = job
        cmd = [exe, kind, str(first), str(n), d]
        env = dict(vp.SAN_ENV)
        r = vp.run(cmd, env=env, timeout=120, cwd=d)
        m = re.search(r'events (\d+) colliding (\d+)', r.out.decode('utf-8', 'replace'))
        if m:
            c.count('steps compared, ' + kind, int(m.group(1)))
            if kind == 'strpool':
                c.count('strings with equal hashes', int(m.group(2)))
        seeds = re.findall(r'^seed (\d+)', r.err.decode('utf-8', 'replace'), re.M)
        for s in seeds:
            c.case((kind, s), {'kind': kind, 'seed': s} if s == seeds[0] and first == base else None)
        fails = re.findall(r'^FAIL (\S+) (\d+) (.*)', r.out.decode('utf-8', 'replace'), re.M)
        for k, s, what in fails:
            c.violation('%s/%s' % (k, re.sub(r"\d+|'[^']*'", '#', what)), 'history %s of %s: %s' % (s, k, what),
                        {'replay.txt': 'core_model %s %s 1\n%s\n' % (k, s, what)})
        if not fails and (r.rc != 0 or r.timeout):
            s = seeds[-1] if seeds else '?'
            tail = '\n'.join(l for l in r.text.split('\n') if not l.startswith('seed '))
            key = vp.crash_key(r) if not r.timeout else 'does not end'
            c.violation('%s/%s' % (kind, key), 'history %s of %s: %s\n%s' % (s, kind, key, tail[:3000]),
                        {'replay.txt': 'core_model %s %s 1\n%s\n' % (kind, s, tail[:8000])})

    for _ in vp.pmap(one, chunks):
        pass
    c.finish(min_evaluations=1000)


vp.main(main)
