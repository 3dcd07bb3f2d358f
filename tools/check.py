#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py --property C01 [--tier quick|thorough]
  check.py --property C01 --replay FILE     (exit 1 if the violation reproduces)
"""
import argparse, collections, json, multiprocessing as mp, os, queue, re, subprocess, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import zyg
from props import PROPS, REAL, STUB, ASSUME

VERIF = zyg.VERIF
OUTDIR = os.environ.get('DSIM_OUT', VERIF)
JOBS = int(os.environ.get('DSIM_JOBS', '8'))


class CheckError(Exception):
    pass


def build():
    t = time.time()
    p = subprocess.run(['bash', os.path.join(VERIF, 'tools', 'build.sh')], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stdout.write(p.stdout.decode('utf8', 'replace')[-6000:])
        raise CheckError('build failed')
    return time.time() - t


def known_findings(prop):
    out = []
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        for k in json.load(f)['findings']:
            if k['property'] == prop and k.get('status') == 'known':
                out.append(k)
    return out


def match_known(kfs, res):
    for k in kfs:
        if k['class'] == res.viol and re.search(k['message'], res.msg or '', re.S):
            return k
    return None


def seed_of(base, si, i):
    return (base * 1000003 + si * 7919) * 1000000 % (1 << 40) + i


def worker(wid, jobs, out, stop, tmo):
    """Executes seeds; one zygote per workload spec."""
    zs = {}
    last = None
    try:
        while True:
            try:
                j = jobs.get(timeout=0.2)
            except queue.Empty:
                if stop.is_set():
                    break
                continue
            if j is None or stop.is_set():
                break
            si, spec, mode, seeds, want_desc = j
            agg = {'n': 0, 'steps': 0, 'switches': 0, 'preempt': 0, 'hot': 0, 'simns': 0, 'threads': 0,
                   'allocs': 0, 'atomics': 0, 'locks': 0, 'faults': [0] * len(zyg.FAULTS), 'stats': {},
                   'hashes': [], 'ahashes': [], 'keys': [], 'viol': [], 'internal': [], 'sample': None, 'si': si,
                   'wd': {}}
            if spec not in zs:
                zs[spec] = zyg.Zygote(spec, tmo)
            z = zs[spec]
            for s in seeds:
                if stop.is_set():
                    break
                last = (spec, mode, s)
                try:
                    r = z.run(s, mode=mode, desc=want_desc and s == seeds[0])
                except zyg.HarnessError as e:
                    agg['internal'].append((spec, mode, s, str(e)))
                    break
                h = r.h
                agg['n'] += 1
                for k in ('steps', 'switches', 'preempt', 'hot', 'simns', 'threads', 'allocs', 'atomics', 'locks'):
                    agg[k] += h[k]
                for i, c in enumerate(h['faults']):
                    agg['faults'][i] += c
                for k, v in r.stats.items():
                    agg['stats'][k] = agg['stats'].get(k, 0) + v
                agg['hashes'].append(h['hash'])
                agg['ahashes'].append(h['ahash'])
                agg['keys'].extend(r.keys)
                if r.internal:
                    agg['internal'].append((spec, mode, s, r.internal))
                elif r.viol:
                    agg['viol'].append((spec, mode, s, r.viol, r.msg, r.hash))
                if r.desc and agg['sample'] is None:
                    agg['sample'] = {'workload': spec, 'mode': mode, 'seed': s, 'steps': h['steps'],
                                     'switches': h['switches'], 'hash': h['hash'],
                                     'faults': {zyg.FAULTS[i]: c for i, c in enumerate(h['faults']) if c},
                                     'case': r.desc[:40]}
            out.put(agg)
    except Exception:
        out.put({'error': '%s %s' % (last, traceback.format_exc())})
    finally:
        for z in zs.values():
            z.close()
        out.put(None)


def explore(prop, tier, base, budget, cap):
    """Runs the seeds of every stream of the property. Returns the totals."""
    P = PROPS[prop]
    streams = P['streams']
    jobs, out, stop = mp.Queue(), mp.Queue(), mp.Event()
    scale = budget / 25.0
    plan = []
    for si, st in enumerate(streams):
        n = max(1, int(st['runs'] * scale))
        chunk = max(1, min(st.get('chunk', 20), n // (JOBS * 2) or 1))
        for a in range(0, n, chunk):
            plan.append((si, st['spec'], st.get('mode', ''),
                         [seed_of(base, si, i) for i in range(a, min(n, a + chunk))], a == 0 or a == chunk))
    # interleave the streams so that a time cap cuts all of them evenly
    plan.sort(key=lambda j: j[3][0] % 1000000 / max(1.0, streams[j[0]]['runs']))
    for j in plan:
        jobs.put(j)
    for _ in range(JOBS):
        jobs.put(None)
    tmo = P.get('timeout', 60)
    ps = [mp.Process(target=worker, args=(i, jobs, out, stop, tmo), daemon=True) for i in range(JOBS)]
    t0 = time.time()
    for p in ps:
        p.start()
    tot = None
    live, err = JOBS, []
    samples, viols, internal = {}, [], []
    hashes, ahashes, keys = set(), set(), set()
    per = collections.Counter()
    while live:
        try:
            a = out.get(timeout=1)
        except queue.Empty:
            if time.time() - t0 > cap:
                stop.set()
            if all(not p.is_alive() for p in ps):
                break
            continue
        if a is None:
            live -= 1
            continue
        if 'error' in a:
            err.append(a['error'])
            continue
        per[a['si']] += a['n']
        hashes.update((a['si'], h) for h in a['hashes'])
        ahashes.update(a['ahashes'])
        keys.update(a['keys'])
        if a['sample']:
            samples.setdefault(a['si'], a['sample'])
        viols += a['viol']
        internal += a['internal']
        if tot is None:
            tot = a
        else:
            for k in ('n', 'steps', 'switches', 'preempt', 'hot', 'simns', 'threads', 'allocs', 'atomics', 'locks'):
                tot[k] += a[k]
            tot['faults'] = [x + y for x, y in zip(tot['faults'], a['faults'])]
            for k, v in a['stats'].items():
                tot['stats'][k] = tot['stats'].get(k, 0) + v
        if time.time() - t0 > cap or len(viols) > 120:
            stop.set()
    stop.set()
    for q in (jobs, out):
        q.cancel_join_thread()
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    if tot is None:
        raise CheckError('no run completed: %s' % (err[:2] or internal[:2]))
    tot['wall'] = time.time() - t0
    tot['hashes'] = len(hashes)
    tot['ahashes'] = len(ahashes)
    tot['keys'] = len(keys)
    tot['samples'] = [samples[k] for k in sorted(samples)]
    tot['viol'] = viols
    tot['internal'] = internal
    tot['err'] = err
    tot['per'] = {(streams[k]['spec'] + '/' + streams[k].get('mode', '')): v for k, v in sorted(per.items())}
    return tot


# ------------------------------------------------------------ minimisation
class Mini:
    def __init__(self, spec, mode, seed, cls, tmo, deadline):
        self.spec, self.mode, self.seed, self.cls = spec, mode, seed, cls
        self.z = zyg.Zygote(spec, tmo)
        self.deadline = deadline
        self.tests = 0
        self.tmpd = tempfile.mkdtemp(prefix='dsim-min-')

    def late(self):
        return time.time() > self.deadline

    def run(self, **kw):
        self.tests += 1
        return self.z.run(self.seed, mode=self.mode, **kw)

    def fails(self, r):
        return r.internal is None and r.viol == self.cls

    def tracefile(self, tr, fa):
        p = os.path.join(self.tmpd, 'trace')
        with open(p, 'w') as f:
            f.write('\n'.join(tr + fa) + '\n')
        return p

    def drop_min(self, nelem):
        """Greedy ddmin over workload elements; several schedules per try."""
        drop, sched = set(), 0

        def test(d):
            for sc in ([sched] + [x for x in range(4) if x != sched]):
                if self.late():
                    return None
                r = self.run(drop=d, sched=sc)
                if self.fails(r):
                    return sc
            return None
        n = 2
        rest = list(range(nelem))
        while rest and not self.late():
            size = max(1, len(rest) // n)
            hit = False
            i = 0
            while i < len(rest) and not self.late():
                part = rest[i:i + size]
                sc = test(drop | set(part))
                if sc is not None:
                    drop |= set(part)
                    sched = sc
                    rest = rest[:i] + rest[i + size:]
                    hit = True
                else:
                    i += size
            if size == 1 and not hit:
                break
            if size > 1:
                n = min(len(rest) or 1, n * 2)
            elif not hit:
                break
        return drop, sched

    def list_min(self, items, test, limit=400):
        """ddmin on an explicit list."""
        n = 2
        used = 0
        while items and not self.late() and used < limit:
            size = max(1, (len(items) + n - 1) // n)
            i, hit = 0, False
            while i < len(items) and not self.late() and used < limit:
                cand = items[:i] + items[i + size:]
                used += 1
                if test(cand):
                    items = cand
                    hit = True
                else:
                    i += size
            if size == 1:
                if not hit:
                    break
            else:
                n = min(len(items) or 1, n * 2)
        return items

    def close(self):
        self.z.close()
        subprocess.run(['rm', '-rf', self.tmpd])


def confirm(prop, v, tmo):
    """Same seed twice plus a fresh process: identical outcome or no verdict."""
    spec, mode, seed, cls, msg, h = v
    for _ in range(2):
        z = zyg.Zygote(spec, tmo)
        try:
            r = z.run(seed, mode=mode)
        finally:
            z.close()
        if r.viol != cls or (cls not in ('hang',) and r.hash != h):
            return None
    return r


def report(prop, v, tmo, budget):
    spec, mode, seed, cls, msg, h = v
    t0 = time.time()
    m = Mini(spec, mode, seed, cls, tmo, t0 + budget)
    try:
        drop, sched = set(), 0
        trace, faults = None, []
        r0 = m.run()
        # number of elements: from a passing description run, or a bound
        ne = r0.nelem
        if not ne:
            ne = 4096
            # elements beyond the last one used do not matter
        if cls != 'hang':
            drop, sched = m.drop_min(ne) if ne <= 4096 else (set(), 0)
        r = m.run(drop=drop, sched=sched, dump=1, desc=1)
        if not m.fails(r):
            drop, sched = set(), 0
            r = m.run(dump=1, desc=1)
        tr, fa = r.trace, r.faults
        replayable = cls != 'hang' and r.h['ntrace'] < 390000
        if replayable:
            m.deadline = max(m.deadline, time.time() + 10)

            def rep(t, f):
                x = m.run(drop=drop, sched=sched, trace=m.tracefile(t, f))
                return m.fails(x)
            if rep(tr, fa):
                forced = [x for x in tr if x.endswith(' 1')]
                pre = [x for x in tr if not x.endswith(' 1')]
                order = {x: i for i, x in enumerate(tr)}

                def join(p):
                    return sorted(p + forced, key=lambda x: order[x])
                if fa:
                    fa = m.list_min(fa, lambda f: rep(tr, f), 120)
                pre = m.list_min(pre, lambda p: rep(join(p), fa), 400)
                tr = join(pre)
                trace = True
            else:
                trace = None
        tf = m.tracefile(tr, fa) if trace else None
        fin = m.run(drop=drop, sched=sched, trace=tf, desc=1)
        if not m.fails(fin):
            raise CheckError('minimised run does not reproduce')
        rec = {'property': prop, 'spec': spec, 'mode': mode, 'seed': seed, 'sched': sched,
               'drop': zyg.ranges(drop) if drop else '', 'class': cls, 'message': fin.msg, 'hash': fin.hash,
               'trace': tr if trace else None, 'faults': fa if trace else None, 'timeout': tmo,
               'first_message': msg, 'case': fin.desc, 'steps': fin.h['steps'],
               'preemptions_left': len([x for x in tr if not x.endswith(' 1')]) if trace else None,
               'elements_dropped': len(drop), 'minimiser_runs': m.tests}
        # fresh process, exact
        d = os.path.join(OUTDIR, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d.json' % (prop, cls, seed))
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        ok, got = replay(path)
        if not ok:
            raise CheckError('replay file %s does not reproduce in a fresh process (%s)' % (path, got))
        return path, rec
    finally:
        m.close()


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    z = zyg.Zygote(rec['spec'], rec.get('timeout', 60))
    tmp = None
    try:
        kw = {}
        if rec.get('trace') is not None:
            fd, tmp = tempfile.mkstemp(prefix='dsim-replay-')
            with os.fdopen(fd, 'w') as f:
                f.write('\n'.join(rec['trace'] + (rec['faults'] or [])) + '\n')
            kw['trace'] = tmp
        r = z.run(rec['seed'], mode=rec['mode'], sched=rec['sched'], drop=None, desc=1,
                  **({'drop_raw': None} if False else {}), **kw) if not rec['drop'] else \
            z.run(rec['seed'], mode=rec['mode'], sched=rec['sched'], drop=expand(rec['drop']), desc=1, **kw)
    finally:
        z.close()
        if tmp:
            os.unlink(tmp)
    same = r.viol == rec['class'] and (rec['class'] == 'hang' or r.hash == rec['hash'])
    return same, '%s %s %s' % (r.viol, r.hash, r.msg)


def expand(s):
    out = set()
    for p in s.split(','):
        a, _, b = p.partition('-')
        out.update(range(int(a), int(b or a) + 1))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    prop = a.property
    P = PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    print('property=%s tier=%s seed=%d' % (prop, a.tier, seed))
    sys.stdout.flush()
    tb = build()
    if a.replay:
        ok, got = replay(a.replay)
        print(got)
        if ok:
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        print('replay did not reproduce the recorded violation')
        return 0
    budget = a.budget or (60 if a.tier == 'quick' else 1500)
    cap = 300 if a.tier == 'quick' else budget * 1.5
    tot = explore(prop, a.tier, seed, budget, cap)
    kfs = known_findings(prop)
    seen_known = collections.Counter()
    fresh = []
    for v in sorted(tot['viol'], key=lambda v: v[2]):
        r = type('R', (), {})()
        r.viol, r.msg = v[3], v[4]
        k = match_known(kfs, r)
        if k:
            seen_known[k['id']] += 1
        else:
            fresh.append(v)
    n_internal = len(tot['internal'])
    for x in tot['internal'][:5]:
        print('internal: %s/%s seed %d: %s' % (x[0], x[1], x[2], x[3]))
    for e in tot['err'][:3]:
        print('error: %s' % e)
    wall = time.time() - t0
    runs = tot['n']
    secs = max(0.001, tot['wall'])
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': tot['hashes'],
        'rule': P['rule'] + ' A run counts as distinct when its control hash (every context switch with thread, '
                'target and position, every recorded event and fault) differs from all others of its workload.',
        'samples': tot['samples'][:4],
        'runs_per_hour': int(runs / secs * 3600),
        'seeds_per_hour': int(runs / secs * 3600),
        'simulated_time_s': round(tot['simns'] / 1e9, 3),
        'scheduling_points': tot['steps'],
        'context_switches': tot['switches'],
        'preemptions': tot['preempt'],
        'conflict_points': tot['hot'],
        'threads_simulated': tot['threads'],
        'atomic_operations': tot['atomics'],
        'lock_operations': tot['locks'],
        'distinct_interleavings': tot['hashes'],
        'distinct_memory_access_orders': tot['ahashes'],
        'distinct_end_states': tot['keys'],
        # those of stand-ins of a workload are counted by it
        'faults_injected': dict({zyg.FAULTS[i]: c for i, c in enumerate(tot['faults']) if i and c},
                                **{k[6:]: c for k, c in tot['stats'].items() if k.startswith('fault:')}),
        'faults_enabled': P.get('faults', []),
        'probes': dict(sorted(tot['stats'].items())),
        'runs_per_stream': tot['per'],
        'components_real': REAL + P.get('real', []),
        'components_stub': STUB + P.get('stub', []),
        'internal_errors': n_internal,
        'known_findings_seen': dict(seen_known),
        'build_s': round(tb, 1),
    }
    ev = {'property': prop, 'tier': a.tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': ASSUME + P.get('assume', []), 'wall_s': round(wall, 1), 'violations': len(fresh)}
    os.makedirs(os.path.join(OUTDIR, 'evidence'), exist_ok=True)

    def save():
        ev['wall_s'] = round(time.time() - t0, 1)
        with open(os.path.join(OUTDIR, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    save()
    print('%d runs in %.1fs (build %.1fs), %d distinct interleavings, %d violations, %d internal, faults %s' % (
        runs, secs, tb, tot['hashes'], len(fresh), n_internal, cov['faults_injected']))
    for k in kfs:
        print('KNOWN-FINDING: property=%s %s (seen %d times in this run)' % (prop, k['what'], seen_known[k['id']]))
    if fresh:
        tmo = P.get('timeout', 60)
        # prefer small cheap classes; try several in case one does not confirm
        tried = 0
        byc = collections.OrderedDict()
        for v in sorted(fresh, key=lambda v: (v[3] == 'hang', v[2])):
            byc.setdefault(v[3], []).append(v)
        unconfirmed = []
        for cls, vs in byc.items():
            for v in vs[:3]:
                tried += 1
                if not confirm(prop, v, tmo):
                    unconfirmed.append(v)
                    continue
                try:
                    path, rec = report(prop, v, tmo, 45 if a.tier == 'quick' else 240)
                except (CheckError, zyg.HarnessError) as e:
                    print('could not confirm: %s' % e)
                    unconfirmed.append(v)
                    continue
                print('class %s: %s' % (rec['class'], rec['message']))
                for l in rec['case'][:60]:
                    print('  ' + l)
                save()
                print('VIOLATION property=%s replay=%s' % (prop, path))
                return 1
        print('violations seen but not reproducible: %s' % (unconfirmed[:3],))
        return 2
    if tot['err'] or n_internal > runs * 0.02:
        print('too many internal errors')
        return 2
    if P.get('probes'):
        miss = [p for p in P['probes'] if not tot['stats'].get(p)]
        if miss:
            print('note: probes never hit: %s' % miss)
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except (CheckError, zyg.HarnessError) as e:
        print('check error: %s' % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
