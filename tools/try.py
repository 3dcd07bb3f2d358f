#!/usr/bin/env python3
"""try.py SPEC MODE FIRST COUNT [desc]: run seeds and print outcomes."""
import sys, time, collections, multiprocessing as mp
sys.path.insert(0, __file__.rsplit('/', 1)[0])
import zyg

def work(a):
    spec, mode, seeds, desc = a
    z = zyg.Zygote(spec)
    out = []
    for s in seeds:
        r = z.run(s, mode=mode, desc=desc)
        out.append((s, r.h, r.viol, r.msg, r.internal, r.desc, r.stats))
    z.close()
    return out

if __name__ == '__main__':
    spec, mode, first, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    desc = len(sys.argv) > 5
    J = 8 if n >= 8 else 1
    t = time.time()
    with mp.Pool(J) as p:
        res = sum(p.map(work, [(spec, mode, list(range(first + i, first + n, J)), desc) for i in range(J)]), [])
    dt = time.time() - t
    cls = collections.Counter()
    st = collections.Counter()
    steps = sorted(h['steps'] for _, h, *_ in res)
    ex = {}
    for s, h, v, m, i, d, stt in sorted(res, key=lambda x: x[0]):
        k = v or ('INTERNAL' if i else 'ok')
        cls[k] += 1
        st.update(stt)
        ex.setdefault(k, []).append((s, m or i))
        if desc:
            print(s, h['hash'], k, m)
            print('\n'.join('   ' + x for x in d))
    print(dict(cls), 'in %.1fs' % dt, '%.0f/s' % (n / dt), 'steps median %d max %d' % (steps[len(steps)//2], steps[-1]))
    print(dict(st))
    for k in ex:
        if k != 'ok':
            for s, m in ex[k][:6]:
                print(k, 'seed', s, (m or '')[:400])
