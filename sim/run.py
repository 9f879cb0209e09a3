#!/usr/bin/env python3
"""Seeded search over simulated runs of one property, replay and minimisation.

  run.py --prop S01 [--tier quick|thorough]     search (VERIF_SEED, VERIF_TIER)
  run.py --replay FILE                          reproduce one failure exactly
"""
import argparse, hashlib, json, os, queue, random, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import build
from config import CONFIG

KNOWN = os.path.join(VERIF, 'known_findings.json')


class HarnessError(Exception):
    pass


class Zygote:
    """One simulated process image; forks a child per run."""
    def __init__(self, native, pkg, info, scratch, extra_env=None):
        cfg = {'native': native, 'pkg': pkg, 'simdir': HERE, 'site': info['site']}
        env = {'PATH': '/usr/bin:/bin', 'HOME': scratch, 'LANG': 'C.UTF-8', 'PYTHONHASHSEED': '0',
               'LD_PRELOAD': os.path.join(native, 'libsim.so'), 'IGASIM_CFG': json.dumps(cfg),
               'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'agg', 'MPLCONFIGDIR': os.path.join(VERIF, '.build', 'mpl'),
               'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONUNBUFFERED': '1'}
        env.update(extra_env or {})
        self.scratch = scratch
        os.makedirs(scratch, exist_ok=True)
        qr, qw = os.pipe()
        ar, aw = os.pipe()

        def fds():
            # move both ends out of the way, then to 3 and 4
            a, b = os.dup(qr), os.dup(aw)
            hi = 200
            os.dup2(a, hi)
            os.dup2(b, hi + 1)
            os.dup2(hi, 3)
            os.dup2(hi + 1, 4)
            os.set_inheritable(3, True)
            os.set_inheritable(4, True)
            os.closerange(5, 256)
        self.p = subprocess.Popen([build.PY, '-S', os.path.join(HERE, 'zygote.py')], env=env, cwd=scratch,
                                  close_fds=False, preexec_fn=fds, stdin=subprocess.DEVNULL)
        os.close(qr)
        os.close(aw)
        self.w = os.fdopen(qw, 'w')
        self.r = os.fdopen(ar, 'r')
        self.n = 0

    def wait_ready(self):
        line = self.r.readline()
        if not line:
            raise HarnessError('simulated process did not start')

    def ask(self, req):
        self.n += 1
        sc = os.path.join(self.scratch, 'r')
        shutil.rmtree(sc, ignore_errors=True)
        os.makedirs(sc)
        req = dict(req, scratch=sc)
        self.w.write(json.dumps(req) + '\n')
        self.w.flush()
        line = self.r.readline()
        if not line:
            raise HarnessError('simulated process image ended')
        return json.loads(line)

    def close(self):
        try:
            self.w.close()
            self.r.close()
        except OSError:
            pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


def died_class(d):
    if d.get('timeout'):
        return 'hang'
    if d.get('signal') is not None:
        return 'killed-by-signal-%d' % d['signal']
    e = d.get('exit')
    return {86: 'endless', 87: 'deadlock', 2: 'kernel-stop-or-bounds'}.get(e, 'process-exit-%s' % e)


def violations(ans, seedplan=None):
    """uniform list of {'cls','msg','plan'}"""
    if 'error' in ans:
        raise HarnessError(ans['error'])
    if 'died' in ans:
        d = ans['died']
        n = d.get('note') or {}
        return [{'cls': died_class(d), 'msg': 'the process did not survive the call: %s %s' % (died_class(d), n.get('what', '')),
                 'plan': n.get('plan') or seedplan}]
    return ans['viol']


class Pool:
    def __init__(self, prop, workers, scratch, repo=None):
        self.cfg = CONFIG[prop]
        self.prop = prop
        native, pkgs, info = build.build_all((self.cfg['variant'],))
        self.native, self.pkg, self.info = native, pkgs[self.cfg['variant']], info
        self.scratch = scratch
        self.known = load_known(prop)
        self.zs = [self.new(i) for i in range(workers)]
        for z in self.zs:
            z.wait_ready()
        self.serial = workers

    def new(self, i, env=None):
        return Zygote(self.native, self.pkg, self.info, os.path.join(self.scratch, 'z%d' % i), env)

    def close(self):
        for z in self.zs:
            z.close()

    def req(self, **k):
        return dict({'prop': self.prop, 'known': [(k['cls'], k['match'], k['cls']) for k in self.known if k['status'] == 'known'],
                     'timeout': self.cfg.get('timeout', 120)}, **k)

    def search(self, seeds, tier, stop_on, deadline, samples=3, res=None):
        """Run all seeds (not again those in res); stop early once every index below a violation is done."""
        res = res or [None] * len(seeds)
        lock = threading.Lock()
        nxt = [0]
        worst = [len(seeds)]
        err = []

        def work(z):
            while True:
                with lock:
                    i = nxt[0]
                    if i >= len(seeds) or i > worst[0] or err or time.monotonic() > deadline:
                        return
                    nxt[0] += 1
                if res[i] is not None:
                    continue
                try:
                    a = z.ask(self.req(seed=seeds[i], tier=tier, want_plan=i < samples))
                    if 'error' in a:
                        raise HarnessError('seed %s\n%s' % (seeds[i], a['error']))
                except Exception as e:
                    with lock:
                        err.append(e)
                    return
                res[i] = a
                if ('died' in a or a['viol']) and stop_on(a):
                    with lock:
                        worst[0] = min(worst[0], i)
        ts = [threading.Thread(target=work, args=(z,)) for z in self.zs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if err:
            raise HarnessError(str(err[0]))
        return res


def load_known(prop):
    try:
        with open(KNOWN) as fh:
            return [k for k in json.load(fh) if k['property'] == prop]
    except FileNotFoundError:
        return []


def is_known(v, known):
    for k in known:
        if k.get('status') == 'known' and k['cls'] == v['cls'] and re.search(k['match'], v['msg']):
            return k
    return None


def plan_key(plan):
    return hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:10]


def reproduce(z, pool, plan, tier, cls, want_trace=False):
    a = z.ask(pool.req(plan=plan, tier=tier, want_trace=want_trace))
    vs = violations(a, plan)
    for v in vs:
        if v['cls'] == cls:
            return v, a
    return (None, a)


def minimise(z, pool, v, tier, limit=60.0, maxruns=250):
    t0, runs = time.monotonic(), 0
    plan, cls = v['plan'], v['cls']
    improved = True
    while improved and time.monotonic() - t0 < limit and runs < maxruns:
        improved = False
        a = z.ask(pool.req(op='shrink', plan=plan, tier=tier))
        for c in a.get('cands', []):
            if time.monotonic() - t0 > limit or runs >= maxruns:
                break
            runs += 1
            try:
                w, _ = reproduce(z, pool, c, tier, cls)
            except HarnessError:
                continue
            if w is not None:
                plan = w['plan'] or c
                v = w
                improved = True
                break
    return dict(v, plan=plan), runs


def report(pool, seed, plan, v, tier, runs, digest):
    rep = {'property': pool.prop, 'class': v['cls'], 'message': v['msg'], 'seed': seed, 'tier': tier, 'plan': plan,
           'variant': pool.cfg['variant'], 'digest': digest, 'minimising_runs': runs,
           'reproduce': 'python3 %s --replay <this file>' % os.path.join(HERE, 'run.py')}
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', '%s-%s.json' % (pool.prop, plan_key(plan)))
    with open(path, 'w') as fh:
        json.dump(rep, fh, indent=1)
    return path


def check(prop, tier, seed, workers, nseeds=None, evidence=True, quiet=False, tlimit=None, shrink=True):
    t0 = time.monotonic()
    cfg = CONFIG[prop]
    n = nseeds or cfg['seeds'][tier]
    known = load_known(prop)
    for k in known:
        if k.get('status') == 'known':
            print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    scratch = tempfile.mkdtemp(prefix='igasim-%s-' % prop, dir='/dev/shm')
    pool = None
    rc, nviol, out, unrepeated = 0, 0, [], []
    try:
        pool = Pool(prop, workers, scratch)
        tb = time.monotonic()
        seeds = ['%s:%s:%d' % (seed, prop, i) for i in range(n)]
        deadline = t0 + (tlimit or (600 if tier == 'quick' else 6 * 3600))
        z = pool.zs[0]

        def fresh(a):
            return any(not is_known(v, known) for v in violations(a))
        res, judged = None, set()
        while True:
            res = pool.search(seeds, tier, fresh, deadline, res=res)
            done = [i for i, a in enumerate(res) if a is not None]
            ts = time.monotonic()
            for i in done:
                if i in judged:
                    continue
                judged.add(i)
                for v in violations(res[i]):
                    if is_known(v, known):
                        continue
                    plan = v['plan']
                    w = None
                    for attempt in range(4):
                        zz = pool.zs[attempt % len(pool.zs)]
                        if plan is not None:
                            w, _ = reproduce(zz, pool, plan, tier, v['cls'])
                            if w is not None:
                                if w['plan'] is None:
                                    w['plan'] = plan
                                w, runs = minimise(z, pool, w, tier) if shrink else (w, 0)
                                break
                        # perhaps only the whole run shows it
                        a = zz.ask(pool.req(seed=seeds[i], tier=tier, want_plan=True))
                        vs = [x for x in violations(a) if x['cls'] == v['cls']]
                        if vs:
                            w = dict(vs[0], plan={'seed': seeds[i]})
                            runs = 0
                            break
                    if w is None:
                        unrepeated.append('%s: %s %s' % (seeds[i], v['cls'], v['msg'][:200]))
                        print('NOTE: seen once, not reproducible, not reported: ' + unrepeated[-1])
                        continue
                    _, a = reproduce(z, pool, w['plan'], tier, v['cls']) if set(w['plan']) != {'seed'} else (None, {})
                    path = report(pool, seeds[i], w['plan'], w, tier, runs, a.get('digest'))
                    out.append('%s: %s' % (w['cls'], w['msg']))
                    out.append('VIOLATION property=%s replay=%s' % (prop, path))
                    nviol += 1
                    break
                if nviol:
                    rc = 1
                    break
            if nviol or len(done) == n or time.monotonic() > deadline or not any(fresh(res[i]) for i in done):
                break
        # determinism: the same seeds again, in another process image
        again, same = 0, 0
        step = max(1, len(done) // 24)
        for k, i in enumerate(done[::step][:24]):
            a = pool.zs[-1 - k % len(pool.zs)].ask(pool.req(seed=seeds[i], tier=tier))
            again += 1
            same += a.get('digest') == res[i].get('digest') and a.get('died', {}) == res[i].get('died', {})
        agg = {'faults': {}, 'probes': {}, 'inter': set(), 'runs': 0, 'nontrivial': 0, 'steps': [0, 0, 0], 'samples': []}
        for i in done:
            a = res[i]
            if 'died' in a:
                continue
            for k in ('faults', 'probes'):
                for x, c in a[k].items():
                    agg[k][x] = agg[k].get(x, 0) + c
            agg['inter'].update(a['inter'])
            agg['runs'] += a['runs']
            agg['nontrivial'] += a['nontrivial']
            agg['steps'] = [p + q for p, q in zip(agg['steps'], a['steps'])]
            if a.get('sample') is not None and len(agg['samples']) < 3:
                s = json.dumps(a['sample'])
                agg['samples'].append({'seed': seeds[i], 'plan': a['sample'] if len(s) < 6000 else s[:6000] + '...'})
        reach = [zz.ask(pool.req(op='reach')) for zz in pool.zs]
        wall = time.monotonic() - t0
        hours = max(ts - tb, 1e-6) / 3600
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': cfg['level'], 'wall_s': round(wall, 2), 'violations': nviol,
              'coverage': {
                  'evaluations': agg['runs'], 'distinct_nontrivial': len(agg['inter']),
                  'rule': cfg['rule'], 'samples': agg['samples'],
                  'seeds': len(done), 'seeds_requested': n, 'seeds_per_hour': round(len(done) / hours),
                  'simulated_runs_per_hour': round(agg['runs'] / hours),
                  'runs_with_a_fault_or_switch': agg['nontrivial'],
                  'simulated_time_steps': {'kernel_basic_blocks': agg['steps'][0], 'igakit_bytecodes': agg['steps'][1], 'disk_operations': agg['steps'][2]},
                  'faults_injected': dict(sorted(agg['faults'].items())), 'outcomes': dict(sorted(agg['probes'].items())),
                  'code_reached': {'kernel_locations_max_over_workers': max(r['kernel'] for r in reach),
                                   'igakit_bytecodes_max_over_workers': max(r['code'] for r in reach)},
                  'determinism_rerun': {'seeds': again, 'identical': same}, 'not_reproducible': unrepeated,
                  'real_components': cfg['real'], 'stubs': cfg['stubs'],
              }, 'assumptions': cfg['assumptions']}
        if evidence:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
            with open(tmp, 'w') as fh:
                json.dump(ev, fh, indent=1)
            os.replace(tmp, os.path.join(VERIF, 'evidence', '%s.json' % prop))
        if not quiet:
            print('%s: %d seeds, %d runs, %d distinct, %.1f s; faults %s; %s' % (
                prop, len(done), agg['runs'], len(agg['inter']), wall, sum(agg['faults'].values()),
                'determinism %d/%d' % (same, again)))
        for o in out:
            print(o)
        return rc, ev
    finally:
        if pool:
            pool.close()
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    with open(path) as fh:
        rep = json.load(fh)
    prop = rep['property']
    scratch = tempfile.mkdtemp(prefix='igasim-replay-', dir='/dev/shm')
    pool = None
    try:
        pool = Pool(prop, 1, scratch)
        z = pool.zs[0]
        plan = rep['plan']
        if set(plan) == {'seed'}:
            a = z.ask(pool.req(seed=plan['seed'], tier=rep['tier'], want_trace=True))
        else:
            a = z.ask(pool.req(plan=plan, tier=rep['tier'], want_trace=True))
        for e in a.get('trace', []):
            print('  ', e)
        for v in violations(a, plan):
            print('%s: %s' % (v['cls'], v['msg']))
            if v['cls'] == rep['class']:
                print('digest %s (recorded %s)' % (a.get('digest'), rep.get('digest')))
                print('VIOLATION property=%s replay=%s' % (prop, path))
                return 1
        print('%s: the recorded failure does not occur on this tree' % prop)
        return 0
    finally:
        if pool:
            pool.close()
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--seeds', type=int)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--no-shrink', action='store_true')
    a = ap.parse_args()
    try:
        if a.replay:
            return replay(a.replay)
        return check(a.prop, a.tier, a.seed, a.workers, a.seeds, not a.no_evidence, shrink=not a.no_shrink)[0]
    except (HarnessError, build.BuildError) as e:
        print('ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
