#!/usr/bin/env python3
"""seeded.py [--nocheck] [--checks C01,C02] ID...: validates planted bugs in a scratch copy.

For each: the patch applies to /repo HEAD, builds, passes the stable tests, demo.sh
exits 0 without and non-zero with it; then runs the check of its property (or the
ones given) against the scratch copy.
"""
import argparse, json, os, subprocess, sys, time, xml.etree.ElementTree as ET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
S = W + '/repo'
ENV = dict(os.environ, HOME='/root', LC_ALL='C.UTF-8', CC='gcc', CXX='g++')


def sh(cmd, cwd=None, t=900, env=ENV):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=t, stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def build():
    rc, o = sh('cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DLLVM_DIR=/usr/lib/llvm-20/lib/cmake/llvm '
               '-DCLANG_ROOT=/usr/lib/llvm-20 -DPYTHON_EXECUTABLE=/usr/bin/python3 >/dev/null && ninja -C %s/_build' % (S, S, S))
    return rc == 0, o


def prepare():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(S):
        rc, o = sh('git clone -q /repo %s' % S)
        assert rc == 0, o
    sh('git fetch -q origin && git checkout -qf FETCH_HEAD && git reset -q --hard origin/HEAD; git checkout -qf $(git -C /repo rev-parse HEAD)', S)
    rc, o = sh('git rev-parse HEAD', S)
    rc2, o2 = sh('git rev-parse HEAD', '/repo')
    assert o == o2, (o, o2)
    sh('git checkout -q -- .', S)
    ok, o = build()
    assert ok, o[-3000:]


def tests():
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    rc, o = sh('ctest --test-dir %s/_build -j8 --timeout 120 --output-junit %s/ctest.xml' % (S, W), t=600)
    good = set()
    for c in ET.parse(W + '/ctest.xml').getroot().iter('testcase'):
        if c.find('failure') is None and c.find('error') is None and c.get('status') != 'notrun':
            good.add('%s::%s' % (c.get('classname'), c.get('name')))
    return [s for s in stable if s not in good]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--nocheck', action='store_true')
    ap.add_argument('--nodemo', action='store_true')
    ap.add_argument('--checks')
    ap.add_argument('ids', nargs='*')
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(V + '/seeded'))
    prepare()
    clean = {}
    if not a.nodemo:
        for i in ids:
            t = time.time()
            rc, o = sh(['bash', '%s/seeded/%s/demo.sh' % (V, i)], S, 300)
            clean[i] = rc
            print('%s clean demo rc=%d %.1fs %s' % (i, rc, time.time() - t, '' if rc == 0 else o[-1500:]), flush=True)
    for i in ids:
        d = '%s/seeded/%s' % (V, i)
        meta = json.load(open(d + '/meta.json'))
        rc, o = sh('git apply %s/patch.diff' % d, S)
        if rc:
            print(i, 'PATCH DOES NOT APPLY', o)
            continue
        try:
            ok, o = build()
            if not ok:
                print(i, 'BUILD FAILS', o[-2000:])
                continue
            msg = [i, meta['property']]
            if not a.nodemo:
                bad = tests()
                msg.append('TESTS FAIL %s' % bad if bad else 'tests ok')
                t = time.time()
                rc, o = sh(['bash', d + '/demo.sh'], S, 300)
                msg.append('demo rc=%d (%.1fs)%s' % (rc, time.time() - t, ' DEMO PASSES' if rc == 0 else ''))
            if not a.nocheck:
                for c in (a.checks.split(',') if a.checks else [meta['property']]):
                    t = time.time()
                    rc, o = sh(['python3', V + '/tools/check.py', '--property', c], V, 900,
                               dict(ENV, DSIM_REPO=S, DSIM_BUILD=W + '/vbuild', DSIM_OUT=W + '/out', VERIF_SEED='1'))
                    v = [l for l in o.split('\n') if l.startswith('class ')]
                    vio = ('VIOLATION property=%s ' % c) in o
                    msg.append('check %s rc=%d %.0fs %s %s' % (c, rc, time.time() - t, 'CAUGHT' if rc == 1 and vio else 'MISSED' if rc == 0 else o[-800:],
                                                              v[0][:160] if v else ''))
            print(' | '.join(msg), flush=True)
        finally:
            sh('git checkout -q -- .', S)
    build()


main()
