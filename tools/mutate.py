#!/usr/bin/env python3
"""mutate.py FILE.py [name...]: mutation campaign in a scratch copy of /repo.

FILE.py defines M = [(name, property, path, old, new), ...] (old must occur once, or
(old, k) for the k-th occurrence). Each mutant is applied to a scratch clone and its
property's quick check is run against it. Results go to <FILE>.res.
"""
import os, subprocess, sys, time, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('MUT_DIR', '/tmp/mut')
S = W + '/repo'


def sh(cmd, cwd=None, env=None, t=1200):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=t, stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def main():
    f = sys.argv[1]
    M = runpy.run_path(f)['M']
    want = sys.argv[2:]
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(S):
        rc, o = sh('git clone -q /repo %s' % S)
        assert rc == 0, o
    sh('git checkout -q -- . && git fetch -q origin && git checkout -qf $(git -C /repo rev-parse HEAD)', S)
    done = {}
    if os.path.exists(f + '.res') and not want:
        for l in open(f + '.res'):
            done[l.split()[1]] = l
    for name, props, path, old, new in M:
        if name in done or (want and name not in want):
            continue
        k = 0
        if isinstance(old, tuple):
            old, k = old
        p = S + '/' + path
        src = open(p).read()
        n = src.count(old)
        if n == 0 or (n > 1 and not k):
            print('BAD   ', name, 'matches', n, flush=True)
            continue
        if k:
            i = -1
            for _ in range(k):
                i = src.find(old, i + 1)
        else:
            i = src.find(old)
        open(p, 'w').write(src[:i] + new + src[i + len(old):])
        for prop in props.split(','):
            t = time.time()
            env = dict(os.environ, DSIM_REPO=S, DSIM_BUILD=W + '/build', DSIM_OUT=W + '/out', VERIF_SEED='1')
            try:
                rc, o = sh(['python3', V + '/tools/check.py', '--property', prop], V, env)
            except subprocess.TimeoutExpired:
                rc, o = 99, 'timeout'
            lines = [l for l in o.splitlines() if l.startswith('class ')]
            res = {0: 'MISSED', 1: 'CAUGHT'}.get(rc, 'ERR%d' % rc)
            msg = '%-6s %s %s %.0fs %s' % (res, name, prop, time.time() - t, lines[0][:160] if lines else ('' if rc in (0, 1) else o[-400:].replace('\n', ' | ')))
            print(msg, flush=True)
            open(f + '.res', 'a').write(msg + '\n')
        open(p, 'w').write(src)


main()
